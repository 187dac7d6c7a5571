# The single table behind properties.jsonl and MANIFEST.json (python3 tools/props.py writes both).
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
def p(id, title, statement, over, quant, why, files, mech, note, state=None, observe='', technique=None):
    T[id] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note, state=state or [], observe=observe, technique=technique)
SE = 'symbolic execution of the compiled code (LLVM IR) with Z3'
SC = 'symbolic execution of the compiled code (LLVM IR) over all interleavings, with Z3'
GR = 'core/utils/graphutils.hpp'
p('C01', 'Dependencies are visited before their dependents', 'Processing a source tree in topological order visits every file exactly once, and each file only after everything it depends on, whether by use or by build.', ['inputs', 'configurations'], 'every dependency graph', 'Tests use a handful of fixed graphs; order depends on where a walk enters the graph and on shared sub-dependencies.', [GR, 'core/db/dependency_graph.hpp', 'core/db/dependency_graph.cpp'], [('depth-first walk with visit marks', 'core/utils/graphutils.hpp:processGraphNodeRecursive, visitNodesInTopoOrder'), ('resolved references of a file', 'core/db/dependency_graph.cpp:DependencyGraph ctor')], 'Every graph of 3 nodes with 2 arbitrary references each, and every source tree of 3 files with a use and a build dependency each.')
p('C02', 'Circular dependencies are always reported, never invented', 'A source tree whose files depend on each other in a circle, of any length, is rejected with an error instead of being processed or looping forever. A source tree without such a circle is never rejected for that reason, even when many files share dependencies.', ['inputs', 'configurations'], 'every dependency graph, from every starting file', 'Tests have one small cycle; a diamond or a cycle entered from outside takes another path through the marks.', [GR], [('in-progress mark on the walk stack', 'core/utils/graphutils.hpp:processGraphNodeRecursive')], 'Every graph of 3 nodes with 2 arbitrary references each, from every root.')
p('C03', 'The dependency closure of a file is exact', 'The set of dependencies reported for a file contains every file that it reaches through use and build dependencies, exactly once each, and nothing else; each entry names the file that it refers to, and comes after everything that it depends on itself.', ['inputs', 'configurations'], 'every dependency graph and every file in it', 'A test compares one closure; missing or repeated entries depend on sharing and on the order of references.', [GR, 'core/db/dependency_graph.cpp'], [('recursive collection', 'core/db/dependency_graph.cpp:getUseDepsRecursive')], 'As C02; source trees of 3 files with one use and one build dependency each.')
p('C04', 'References are resolved to the named file or rejected', 'Each dependency is resolved to the source file with exactly that name, for any set of files. A dependency on a file that does not exist is an error unless it is of a kind that may be missing or errors are ignored, and no dependency is ever lost, duplicated or redirected.', ['inputs', 'configurations'], 'every set of dependency names', 'Tests resolve a few fixed names; a wrong comparison or lookup shows only with particular orderings and prefixes of names.', ['core/db/dependency_graph.cpp', 'core/db/dependency.hpp'], [('lookup by name in the ordered map of source files', 'core/db/dependency_graph.cpp:DependencyGraph ctor')], 'Four fixed file names (prefixes of each other), one dependency with an arbitrary name of 1..3 bytes.')
p('C05', 'Out-of-date targets are rebuilt, up-to-date ones are not', 'A command is run if any of its targets is missing or older than its source file or any regular file that the source depends on, directly or indirectly, or when rebuilding is forced; otherwise it is not run. The command is run at most once and the reported outcome is that of the run.', ['inputs', 'histories'], 'every combination of time stamps, existence, origin and kind of the files involved', 'Tests use a few time stamps; equal, missing, and indirectly newer files are combinations that they do not reach.', ['core/db/task.hpp', 'core/db/task.cpp', 'core/db/invoker.hpp', 'core/utils/fs.cpp'], [('comparison of modification times', 'core/db/task.cpp:isUpToDate'), ('run or skip', 'core/db/task.cpp:Task::run')], 'One target with two dependencies, side by side or chained, with arbitrary 64-bit time stamps; the file system is modelled.')
p('C06', 'Commands run in dependency order, each at most once', 'During a build with any number of workers, a command is started only after every command that produces something it depends on has finished successfully, and no command is run twice. Only commands that are needed are run.', ['schedules', 'configurations'], 'every interleaving of the workers, every dependency graph, and every outcome of each command', 'Tests run one build with the schedule that happens to occur.', ['core/db/task_list.cpp', 'core/db/task.cpp', 'core/sched/thread_pool.cpp'], [('task waits for the tasks of its references', 'core/db/task.cpp:waitForDeps'), ('hand over to workers', 'core/db/task_list.cpp:process')], 'Up to 3 source files and 2 workers, all interleavings at synchronisation points.')
p('C07', 'A build always ends, and reports failure exactly when one occurred', 'A build of an acyclic source tree ends for every outcome of its commands, including commands that cannot be started or are killed. It is reported successful exactly when every command that was needed has been run successfully, and processing returns only when no command is running any more.', ['schedules', 'fault_sequences', 'configurations'], 'every interleaving, every dependency graph, and every outcome of each command', 'A lost wake-up or a swallowed failure needs a particular schedule together with a particular failing command.', ['core/db/task_list.cpp', 'core/db/task.cpp', 'core/sched/thread_pool.cpp', 'core/sched/signaling_counter.hpp'], [('failure flag and completion counter', 'core/db/task_list.cpp:process')], 'As C06; a state in which every thread waits is a violation.')
p('C08', 'Every submitted task runs exactly once and its result is delivered', 'Every task handed to the pool of workers runs exactly once before the pool is gone. The value that a task returns, or the exception that it throws, reaches whoever asked for it, and the first exception is never lost, whatever the timing.', ['schedules', 'fault_sequences'], 'every interleaving of producers and workers, and every set of failing tasks', 'Tests see the common schedules only.', ['core/sched/thread_pool.hpp', 'core/sched/thread_pool.cpp', 'core/utils/unique_function.hpp'], [('task queue, worker loop and shutdown', 'core/sched/thread_pool.cpp')], 'Up to 2 workers and 3 tasks, all interleavings at synchronisation points.')
p('C09', 'Waiting for a counter or an event ends when it should, and not before', 'A wait for a counter returns only when the counter has reached the awaited value, and always returns once it has. A wait for an event returns only after the event has been signalled, and always then.', ['schedules'], 'every interleaving of waiting and signalling threads', 'A missed or early wake-up is a matter of timing.', ['core/sched/signaling_counter.hpp', 'core/sched/event.hpp'], [('mutex and condition variable', 'core/sched/signaling_counter.hpp')], 'Up to 2 signalling threads.')
p('C10', 'An in-memory pipe delivers the bytes written, in order, to the end', 'The reader of an in-memory pipe gets exactly the bytes written, in the order written, and sees the end of the stream only when the writer has stopped and everything has been delivered. The reader is never left waiting forever.', ['schedules', 'inputs'], 'every interleaving of reader and writer, and every way of chunking reads and writes', 'Which chunks are split or joined, and whether the stop comes before or after a read, is a matter of timing.', ['core/io/fifo.hpp'], [('buffer swap under a mutex', 'core/io/fifo.hpp')], '2 writes of 1..2 arbitrary bytes, reads of 1..3 bytes.')
p('C11', 'Buffered streams deliver exactly the bytes that were put in', 'Whatever is read through an input buffer, written through an output buffer, or captured from a program in memory arrives completely, unaltered, and in order, for any content and however the underlying stream splits it. The end of a stream is reported exactly once everything has been delivered.', ['inputs', 'fault_sequences'], 'every sequence of bytes, and every way the underlying stream splits it', 'Tests use short text in one piece; bytes that look like the end mark, and sizes around the capacity of a buffer, are not tried.', ['core/io/input_buffer.hpp', 'core/io/output_buffer.hpp', 'core/io/mem_io_redirector.hpp', 'core/io/reader.hpp', 'core/io/writer.hpp'], [('refill', 'core/io/input_buffer.hpp:fetchAndResetPtr'), ('flush when full and at the end', 'core/io/output_buffer.hpp:putchar, flush')], 'Streams of up to 5 arbitrary bytes through buffers of 2 and 3 bytes, and of sizes around multiples of 4096 with two arbitrary bytes.')
p('C12', 'Exactly the include directives of a C++ source are found', 'The dependencies found in a C++ source are exactly the files named by its include directives, in order, with the right kind (project file or system header). Nothing in a comment, a string, a raw string or another directive is taken for an include, and nothing of that kind hides the directives after it.', ['inputs'], 'every source text', 'Tests scan a few hand-written files; comments and strings can end in endlessly many ways.', ['core/source_file_info_loaders/cxx/source_file_loader.cpp'], [('state machine over the characters', 'core/source_file_info_loaders/cxx/source_file_loader.cpp:getDependencies')], 'Texts of 2 segments (include, other directive, line comment, block comment, raw string, string literal, tag, other code) with arbitrary contents of 0..2 bytes, followed by one more include. Text is well-formed and directives are not split over lines.')
p('C13', 'Exactly the tags of a source file are extracted', 'The tags passed on are exactly those on the lines of the source that are tag comments, unaltered and on the same line as in the source, so that errors are reported at the right place. All other text, including control characters, comments, and strings that look like tags, contributes nothing but white space, and the source is passed on unchanged.', ['inputs'], 'every source text', 'Tests scan a few hand-written files; comments and strings can end in endlessly many ways.', ['core/source_file_info_loaders/cxx/source_file_loader.cpp', 'core/source_file_info_loaders/extension/source_file_loader.cpp'], [('state machine over the characters', 'core/source_file_info_loaders/cxx/source_file_loader.cpp:filterInput'), ('the same for files with # comments', 'core/source_file_info_loaders/extension/source_file_loader.cpp:filterInput')], 'Texts of 2 segments (directive, line comment, block comment, raw string, string literal, tag, other code) with arbitrary contents of 0..2 bytes.')
p('C14', 'Build identifiers survive printing; anything else is rejected', 'A build identifier that is printed and read back, in upper or lower case, is the same identifier. Text that is not exactly 64 hexadecimal digits is rejected.', ['inputs'], 'every 256-bit identifier, and every text', 'Tests convert a few identifiers.', ['core/build/id.hpp', 'core/build/id.cpp'], [('hexadecimal conversion', 'core/build/id.cpp')], 'All identifiers when printing; when reading, any two consecutive bytes arbitrary; texts of 0..70 digits with one arbitrary character.')
p('C15', 'A printed command means what was executed', 'A command line that is shown to the user, when given to a POSIX shell, yields exactly the program and the arguments that are executed, whatever characters they contain.', ['inputs'], 'every program name and every list of arguments', 'There is no test; quoting errors show with particular characters only.', ['core/exec/command.cpp'], [('quoting', 'core/exec/command.cpp:shell_escape')], 'Program of 1..2 arbitrary bytes and up to 2 arguments of 0..2 arbitrary bytes; the oracle is a reading of the quoting rules of the shell command language.')
p('C16', 'Command line options take effect exactly as given', 'Each option on the command line, with any valid value, sets that option to that value and no other option. An argument that is not exactly the name of an option, an option without a required value or with a value it does not take, and a malformed start time or worker count are rejected.', ['inputs'], 'every argument', 'Tests give a few options; a misspelling or an abbreviation is one of very many.', ['core/cmd_line_parser/command_line.hpp', 'core/cmd_line_parser/command_line.cpp', 'core/bin/cmd_line_options.hpp', 'core/utils/system_time_stamp.cpp', 'core/sched/thread_count.cpp'], [('binary search for the option name', 'core/cmd_line_parser/command_line.cpp:collect_options'), ('list separator and escapes', 'core/cmd_line_parser/command_line.cpp:next_array_token')], 'Each option spelled correctly, or with any one character replaced, cut off or added; every pair of options with arbitrary values of up to 2 bytes; lists of up to 2 elements.')
p('C17', 'The exit status of a program is reported faithfully', 'The outcome reported for an executed program is success exactly when the program returned zero, and tells its exit code, or the signal that killed it.', ['inputs', 'fault_sequences'], 'every status of a terminated program', 'Tests run a program or two.', ['core/exec/execve.cpp', 'core/exec/execve.hpp'], [('decoding of the wait status', 'core/exec/execve.cpp:communicateWith')], 'Every wait status of a terminated process; the system calls are modelled.')
p('C18', 'Programs get their input and all their output is captured', 'An executed program gets exactly the given arguments and input, all bytes that it writes to its output and error streams are captured, in order and without mixing, and it inherits nothing else. A program that cannot be started is reported as an error, no descriptor is leaked, and the call neither hangs nor returns before the program has ended, even when programs are started concurrently.', ['schedules', 'fault_sequences', 'inputs'], 'every interleaving of the reading threads, every chunking of the streams, and every failing system call', 'Tests run a program whose output fits one read, and no system call fails.', ['core/exec/execve.cpp', 'core/exec/execve.hpp'], [('pipes, fork, exec and reader threads', 'core/exec/execve.cpp')], 'Streams of up to 2 bytes delivered in any pieces, inputs of up to 8200 bytes, 0..3 arguments; the system calls are modelled.')
p('C19', 'Names resolve to the documented files, loaders and recipes', 'A name that starts with ./ is relative to the directory of the file it occurs in and any other name to the project directory; a generated file is in the same place relative to the target directory, and external names are unaltered. A file is handled by the loader of its longest known extension, and a recipe in the project is preferred to an installed one. This does not depend on how the source and target directories are written.', ['inputs', 'configurations'], 'every name, every place of the file in the source tree, and every source and target directory', 'Tests use a handful of names in the current directory; dots, repeated separators, and names that leave a directory and come back are not tried.', ['core/source_tree_loader/source_file_load_ctxt.cpp', 'core/utils/fs.hpp', 'core/utils/fs.cpp', 'core/source_tree_loader/command_dictionary.cpp', 'core/build/info.cpp'], [('search path', 'core/source_tree_loader/source_file_load_ctxt.cpp:prependSearchPath'), ('name of a target', 'core/source_tree_loader/source_file_load_ctxt.cpp:makeTargetName'), ('choice of loader', 'core/utils/fs.hpp:matchLongestExtension'), ('lookup of recipes', 'core/source_tree_loader/command_dictionary.cpp:get')], 'Names of up to 3 arbitrary bytes, 9 source and 5 target directories; file names of up to 5 arbitrary bytes; recipes with every kind of object, or none, in either place. Absolute names of generated files are left out.')
p('C20', 'Combined configurations follow one rule, at every level', 'When two configurations are combined, settings in only one of them are kept, lists are joined, groups are combined by the same rule, and any other setting takes the value of the second. Settings of different kinds are rejected, and the configurations combined are themselves not altered.', ['inputs', 'configurations'], 'every pair of configurations', 'A test combines one pair; the rule must hold for every pair of kinds and at every depth.', ['core/key_value_store/compound.cpp', 'core/key_value_store/array.cpp', 'core/db/compiler.cpp'], [('recursive merge', 'core/key_value_store/compound.cpp:operator|='), ('compiler settings', 'core/db/compiler.cpp:operator|')], 'Every pair of kinds of value under one name, groups of one level; two names with groups and numbers; every combination of recipe, origin and flags of a compiler.')
p('C22', 'Structured text is read completely or rejected', 'Well-formed tags, configurations and recipe output have the same meaning however they are delivered and however long they are. Text that is malformed or cut off is rejected and never taken for an empty or shorter one; only blank text counts as empty.', ['inputs', 'fault_sequences'], 'every text and every way of delivering it', 'Tests load complete, well-formed, short text.', ['core/key_value_store/json_handle.cpp', 'core/db/compiler.cpp'], [('feeding of the JSON parser', 'core/key_value_store/json_handle.cpp:ReadHelper'), ('recipe output', 'core/db/compiler.cpp:BufferReader')], 'Every text of up to 3 bytes in any pieces; five longer texts cut off at every point with the last byte arbitrary; recipe output of about 30 to 9000 bytes. The JSON parser itself is a model of libjansson, which the native re-runs use.')
p('C23', 'Named values survive being saved and read', 'Every value that is saved by name is read back as the same value, no two values share a name, and a misspelled name is rejected.', ['inputs'], 'every value, and every misspelling in one place', 'Tests convert some of the values.', ['core/db/source_file_origin.cpp', 'core/db/rebuild_policy.cpp'], [('conversion to and from text', 'core/db/source_file_origin.cpp:fromString')], 'Every value; every name with one character replaced, cut off, or added.')
p('C21', 'Every output has exactly one producer, attributed correctly', 'If two source files declare the same target, the source tree is rejected. Otherwise every declared target is part of the source tree, depends on the file that declares it and is the one found when asked for by name, no target is lost or made up, and asking for one that does not exist is an error.', ['inputs', 'configurations'], 'every set of source files and target names', 'Tests declare a few distinct targets; names can coincide through dots and directories, or coincide with those of source files.', ['core/db/source_file_list.cpp', 'core/db/source_tree.cpp', 'core/source_tree_loader/source_file_load_ctxt.cpp'], [('targets by name', 'core/db/source_file_list.cpp:collectTargets'), ('source file entries of targets', 'core/db/source_file_list.cpp:makeSourceFileInfos'), ('lookup', 'core/db/source_tree.cpp:getTarget')], 'Two files in different directories with up to 2 targets in all; names of 1 arbitrary character after up to two directory parts; 4 pairs of source and target directories.')
p('C24', 'The tags of a source file take effect exactly as documented', 'The targets, dependencies, extra dependencies, compiler settings and rebuild policy of a source file are exactly those that its tags (or the recipe, when asked for tags) declare, with the documented default for everything left out. Every file also depends on its directory and on the recipe that builds its targets, and on nothing that nobody declared.', ['inputs', 'configurations'], 'every combination of tags of a source file, wherever it is located', 'Tests read a few files; combinations of tags, origins and places are many.', ['core/source_tree_loader/source_file_load_ctxt.cpp', 'core/source_tree_loader/source_file_loader_delegator.cpp', 'core/db/compiler.cpp', 'core/source_file_info_loaders/generic/source_file_loader.cpp'], [('reading of tags', 'core/source_tree_loader/source_file_load_ctxt.cpp:loadSourceFile'), ('loader by extension, directories', 'core/source_tree_loader/source_file_loader_delegator.cpp:SourceFileLoaderDelegator::load')], 'One file in 3 places; one kind of tag at a time with every form of its entries and arbitrary characters in names and values; loaders that only name their output with file names of 1..2 arbitrary characters. The file system and the recipe are modelled.')
p('C26', 'The source tree is what is in the source directory, less what is left out', 'A scan finds exactly the files and directories in the source directory, and when scanning recursively in the directories below, except for those that a filter or the target directory leaves out, together with everything in them. A missing source directory, or anything that cannot be read and is not left out, is reported and no part of the tree is passed off as the whole.', ['inputs', 'configurations', 'fault_sequences', 'schedules'], 'every tree of files, every place of the target directory, and every fault while reading', 'Tests scan one tree without faults, with the target directory outside of it.', ['core/source_tree_loader/directory_scanner.cpp', 'core/source_tree_loader/input_filter.cpp', 'core/source_tree_loader/main.cpp'], [('recursive scan on the worker pool', 'core/source_tree_loader/directory_scanner.cpp:processPath'), ('filters', 'core/source_tree_loader/input_filter.cpp')], 'A file, a directory, and a file in it with names of 1 arbitrary character, 4 source directories, 3 places of the target directory, 8 sets of filters; names and paths of 1..4 arbitrary characters for the filters alone, which are re-run with the real std::regex; a tree of 7 files with 8 kinds of fault at two depths, among them read errors at three offsets. The file system and std::regex are modelled.')
p('C27', 'A program is linked with exactly what it uses', 'What a program, archive or test is linked with are exactly the objects and libraries that are declared by the headers that its sources include, directly or in any number of steps, together with what those need in turn. Headers that include each other, and objects that need each other, are rejected and never silently left out.', ['inputs', 'configurations', 'histories'], 'every graph of headers, sources and objects', 'Tests resolve one or two small graphs; what is left out shows only when a graph is deep or has several ways to the same file.', ['core/source_tree_loader/main.cpp', 'core/db/dependency_graph.cpp', 'core/source_tree_loader/source_file_load_ctxt.cpp'], [('dependencies of children and in several steps', 'core/db/dependency_graph.cpp:getUseDepsRecursive'), ('loading and linking of the source tree', 'core/source_tree_loader/main.cpp:load')], 'Two headers that each declare an object, a library or nothing, and include any of the headers; the source of each; a program, an archive or a test with every include of them. One worker, first schedule.')
p('C30', 'A recipe is told exactly what there is to know', 'The command line of a recipe tells exactly the source file, the targets, the dependencies with origin and use, the settings and the facts about the build, whatever characters they contain. What cannot be told is an error and never left out, and the right recipe is asked for tags, whose failure or ill-formed answer is reported.', ['inputs', 'configurations'], 'every name and every combination of targets, dependencies and settings', 'Tests print a few commands; a name that cannot be told is one among very many.', ['core/db/compiler.cpp', 'core/db/dependency.hpp', 'core/build/info.cpp', 'core/key_value_store/compound.hpp', 'core/key_value_store/array.hpp'], [('the build command', 'core/db/compiler.cpp:makeBuildCommand'), ('asking for tags', 'core/db/compiler.cpp:getTags')], 'One name of 1..2 arbitrary bytes in any one place; up to 2 targets, 2 dependencies of every origin, settings of the loader and of the file; 5 outputs and 3 outcomes of a recipe that is asked for tags. The JSON writer itself is a model of libjansson, which the native re-runs use; the oracle reads the command back with its own reader of JSON.')
p('C32', 'Configurations are loaded, combined, and dumped without loss', 'Configuration files take effect in the given order; one that cannot be read, is ill-formed or conflicts with those before it is reported and left out, and if nothing complete remains that is reported and the default configuration is used. A configuration that is dumped and loaded again is the same configuration. Kinds of loaders and recipes that do not exist, and extensions mapped to a loader that does not exist, are rejected; configuring the recipes changes nothing but what a recipe is and what it answers.', ['inputs', 'configurations', 'fault_sequences'], 'every configuration, any number of files in any state, every answer of a recipe', 'Tests load the default configuration only; a setting that is lost or altered shows in one combination of settings.', ['core/bin/config.cpp', 'core/bin/config.hpp', 'core/source_tree_loader/config.cpp', 'core/source_tree_loader/input_filter.cpp', 'core/source_file_info_loaders/config.cpp', 'core/source_file_info_loaders/loader.hpp', 'core/db/compiler.cpp'], [('loading', 'core/bin/config.cpp:loadConfig'), ('dump', 'core/bin/config.hpp:toJson'), ('loaders', 'core/source_file_info_loaders/config.cpp:Config'), ('recipes', 'core/bin/config.cpp:resolveRecipes')], 'Dump and load: one name of 1..2 arbitrary bytes in any one of 8 places, one part at a time with every form, every kind of loader; up to 2 files (thorough: 3) each in one of 14 states; kinds of loaders with one character replaced, added or missing; 3 recipes with 5 outcomes of configuring. Reading and writing JSON is a model of libjansson, as are regular expressions (patterns are not matched here).')
PY = 'symbolic execution of the Python recipes (transformed syntax trees) with Z3'
p('C28', 'A recipe succeeds if and only if its work was done', 'A recipe exits with success only if every program that it runs was started and ended with status 0 and each of its targets exists, made by this run; otherwise it exits with failure. It never fails when nothing has failed. A test is run after it has been linked, and only then.', ['fault_sequences', 'inputs'], 'every exit status and signal of every program, every missing program, every file in the way', 'Tests build projects in which every program succeeds; a failure that is not passed on makes a broken build look like a good one.', ['recipes/cxx_compiler.py', 'recipes/cxx_linker.py', 'recipes/make_lib.py', 'recipes/generic.py', 'recipes/copy_file.py', 'recipes/make_directory.py', 'recipes/doc2html.py', 'recipes/md2htmlpart.py', 'recipes/sass2css.py', 'recipes/pkg_config.py'], [('compiling, linking and running tests', 'recipes/cxx_compiler.py:compile'), ('linking', 'recipes/cxx_linker.py:compile'), ('archives', 'recipes/make_lib.py:compile'), ('any program', 'recipes/generic.py:compile')], 'Programs that cannot be started, end with any status 0..255, or are killed by one of 4 signals; up to 3 targets, up to 2 dependencies of every origin and use; targets in the way as a file or directory. Programs, files and the file system are models in pysym/world.py; counterexamples and sampled paths are replayed with the real recipe and stand-ins for the programs.', technique=PY)
p('C29', 'Programs are run exactly as settings and dependencies say', 'A compiler, linker, archiver or converter is run exactly once, with exactly the flags, include directories (in order, for sources and for generated files), files to include and standard revision that the settings say, and what it makes is the target. Each object and library that is depended on is given once, users before what they use, and nothing else is.', ['inputs', 'configurations'], 'every combination of settings and dependencies', 'Tests build one project, with few libraries; an object in the wrong place or a flag that is lost shows only in some combinations.', ['recipes/cxx_compiler.py', 'recipes/cxx_linker.py', 'recipes/make_lib.py', 'recipes/generic.py', 'recipes/doc2html.py', 'recipes/md2htmlpart.py', 'recipes/pkg_config.py'], [('flags and include directories', 'recipes/cxx_compiler.py:compile'), ('objects and libraries', 'recipes/cxx_linker.py:collect_dependencies'), ('libraries', 'recipes/pkg_config.py')], 'Up to 3 dependencies (thorough; quick: 2) of every origin and use with arbitrary names of one of 2 letters; up to 4 flags, 3 include directories, 7 places of the source file, any number of a task; pkg-config answers a function of the name of the library, with 3 shapes.', technique=PY)
p('C34', 'What a recipe answers is what source and compilers say', 'Configuring selects an installed compiler that works and, within the limits on the standard revision, one that supports it, and alters no other setting; limits that are impossible, or that no compiler meets, are an error. Tags that a recipe gives name exactly the target, the program that is needed, or every local reference of a document, and a document that is ill-formed is an error.', ['inputs', 'configurations', 'fault_sequences'], 'every pair of limits, every set of compilers and what they support, every document', 'Tests run with the one compiler of the machine, which supports everything.', ['recipes/cxx_compiler.py', 'recipes/generic.py', 'recipes/doc2html.py'], [('selection of a compiler', 'recipes/cxx_compiler.py:configure'), ('tags of a document', 'recipes/doc2html.py:get_tags')], 'Up to 2 compilers, each broken, or with any default revision and, for each of up to 4 revisions, rejected, experimental or supported; documents with up to 3 references in nested elements, local or not.', technique=PY)
NA = []
def write():
    from importlib import import_module
    import sys; sys.path.insert(0, ROOT)
    with open(f'{ROOT}/properties.jsonl', 'w') as f:
        for k in sorted(T):
            t = T[k]; d = dict(id=k, title=t['title'], statement=t['statement'], quantifier=dict(over=t['over'], text=t['quant']), why_tests_cant=t['why'], anchors=dict(files=t['files'], mechanism=[dict(name=a, where=b) for a, b in t['mech']]))
            if t['observe']: d['anchors']['observe_at'] = t['observe']
            f.write(json.dumps(d) + '\n')
    checks = []
    for k in sorted(T):
        if k in dict(NA): continue
        t = T[k]; tech = t['technique'] or (SC if 'schedules' in t['over'] else SE)
        checks.append(dict(property=k, quick_cmd=f'python3 run.py {k} --tier quick', thorough_cmd=f'python3 run.py {k} --tier thorough', technique=tech, level='model_checking', level_note=t['note'] + ' Holds within these bounds; trusts the engine, its models of the C/C++ run time, clang and Z3, cross-checked by re-running sampled paths natively.', evidence_file=f'evidence/{k}.json'))
    m = dict(version=1, setup_cmd='make -C engine', checks=checks, not_applicable=[dict(property=a, reason=b) for a, b in NA], hooks=dict(guard='none', enable='no hooks: the checks compile /repo as it is', source_commits=[]))
    json.dump(m, open(f'{ROOT}/MANIFEST.json', 'w'), indent=1); open(f'{ROOT}/MANIFEST.json', 'a').write('\n')
    import jsonschema
    ps = json.load(open('/root/.vp/PROPERTIES.schema.json')); ms = json.load(open('/root/.vp/MANIFEST.schema.json'))
    for l in open(f'{ROOT}/properties.jsonl'): jsonschema.validate(json.loads(l), ps)
    jsonschema.validate(m, ms); print(len(T), 'properties,', len(checks), 'checks')
if __name__ == '__main__': write()
