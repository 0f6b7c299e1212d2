"""writes properties.jsonl and the not_applicable list of MANIFEST.json"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
            'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state], 'observe_at': list(observe), 'hook_needed': hook}}
T1 = 'The test suite compiles each sample once, under whatever interleaving the host happens to produce (and mostly with one worker thread); it cannot choose or repeat an interleaving.'
TF = 'The test suite never makes an operating system call fail; every test runs on a healthy disk with enough memory.'
L = [
P('P01', 'Verdict and diagnostics do not depend on threads or their interleaving',
  'For every set of source files, the compiler accepts or rejects the program, exits with the same code and writes the same set of output files whatever the number of worker threads and however they interleave. If the program contains at most one mistake, the same diagnostics (as a set, up to the spelling of equivalent types) are printed too.',
  ['schedules', 'programs', 'configurations'], 'all programs of one or more compilation units, all thread counts, all interleavings of the worker threads at memory-access granularity',
  T1, ['src/main.c', 'src/parse.c', 'src/preprocess.c', 'src/diagnostic.c'],
  [('lock-free work queue', 'src/main.c work_queue_append_list, work_queue_get_work'), ('shared declaration tables that grow concurrently', 'src/main.c ast_table_add_or_return_previous_entry, ast_table_get'), ('sleeping on and waking up for declarations that do not exist yet', 'src/main.c sleeper_table_add, sleeper_table_delete, wake_up_sleepers'), ('merging of redeclarations', 'src/main.c register_declaration, parser_register_definition, register_compound_type')],
  [('global declaration table', 'types and declarations shared by all units', 'src/main.c globals.global_declarations'), ('sleeper tables', 'work waiting for a name', 'src/main.c globals')], ['exit code, standard output and output files of the compiler']),
P('P02', 'A produced program means what its source says, under every schedule',
  'Whenever the compiler succeeds, the executable it wrote runs and computes what the source files taken together mean: every call, data reference, initialiser and constant resolves to the one definition the sources give. This holds whatever the number of worker threads and however they interleave.',
  ['schedules', 'programs', 'configurations'], 'all valid programs, all thread counts, all interleavings of the worker threads',
  T1 + ' A patch that is lost or applied to the wrong place under one interleaving in a million is invisible to it.', ['src/main.c', 'src/parse.c', 'src/emit_x64.c', 'src/coff_writer.c'],
  [('patches recorded per thread and applied at the end', 'src/main.c emit_patch, evaluate_static_initializer'), ('set of functions and data reachable from the entry point', 'src/main.c add_global_reference_for_declaration'), ('completion of types and arrays by later declarations', 'src/main.c register_compound_type, parser_register_definition'), ('layout of sections', 'src/main.c, src/coff_writer.c')],
  [('per-thread emit pools', 'machine code and patches of each worker', 'src/main.c struct context')], ['behaviour of the produced executable']),
P('P03', 'Every compilation ends: no crash, deadlock, livelock or lost worker',
  'For every set of source files, valid or mistaken, every thread count and every interleaving of the workers, the compilation ends by itself with exit code 0 or 1. It never crashes, never waits for something that nobody will provide, and never spins for ever.',
  ['schedules', 'programs', 'configurations'], 'all programs, all thread counts, all interleavings under a fair scheduler',
  T1 + ' A hang that needs one thread to be suspended between two instructions does not show up.', ['src/main.c', 'src/preprocess.c', 'src/std.c'],
  [('compile stages separated by barriers', 'src/main.c work_thread_proc, worker_work, work_queue'), ('growing of shared tables while others use them', 'src/main.c maybe_grow_ast_table__internal, sleeper_table_maybe_grow_and_begin_access'), ('waiting for a file that another thread loads', 'src/preprocess.c load_file'), ('spin locks', 'src/std.c ticket_spinlock_lock')],
  [('work entries in flight', 'termination count of a stage', 'src/main.c struct work_queue')], ['end status of the process']),
P('P04', 'Order of declarations, units and work does not matter',
  'Permuting the global declarations of the compilation units, moving shared declarations from one unit to another, permuting the units on the command line or randomising the order in which work is picked up does not change whether a program is accepted nor what the produced program computes. A declaration may always be used before it is declared and in another unit than the one that declares it.',
  ['programs', 'schedules', 'configurations'], 'all programs, all permutations of their declarations and units, all work orders and interleavings',
  'Tests fix one order of declarations per sample and compile it in that order; the number of orders is factorial, and each order makes a different set of work items sleep and wake.', ['src/main.c', 'src/parse.c'],
  [('work that needs an unknown name sleeps until it is declared', 'src/main.c worker_parse_global_scope_entry, sleeper_table_add, wake_up_sleepers'), ('tables shared by all compilation units', 'src/main.c globals.global_declarations, lookup_declaration, lookup_compound_type, lookup_typedef'), ('randomised initial queue', 'src/main.c -seed')],
  [], ['exit code; behaviour of the produced executable']),
P('P05', 'Mistakes are diagnosed however they are spread over units and threads',
  'If the program contains a mistake the language requires to be rejected (an undeclared or undefined name that is used, two conflicting definitions or declarations, a syntax or type error, a failing static assertion, a missing include), the compiler exits with a non-zero code, prints an error that names the offending entity, and writes no executable. This holds wherever the contributing declarations are placed, for every thread count and interleaving.',
  ['schedules', 'programs', 'configurations'], 'all programs with one or more mistakes of the listed kinds at any place, all interleavings',
  'Tests contain one sample per mistake in one order; two conflicting declarations registered at the same instant by two threads are never exercised.', ['src/main.c', 'src/parse.c', 'src/preprocess.c', 'src/explain.c'],
  [('comparison of each declaration with the one registered first', 'src/main.c register_declaration, register_compound_type, parser_register_definition'), ('reporting of work that is still asleep when a stage runs dry', 'src/main.c'), ('per-thread error flags merged at the end of a work item', 'src/main.c worker_work'), ('undefined references', 'src/explain.c')],
  [], ['exit code, diagnostics and output files']),
P('P06', 'Names private to a compilation unit stay private to it',
  'A static function, static variable, macro or packing set by #pragma pack belongs to the compilation unit that makes it: equally named ones of other units neither conflict with it nor are ever substituted for it, also when units are compiled concurrently. Static local variables and enumeration of their initialisers are per function and exist once.',
  ['schedules', 'programs'], 'all programs whose units reuse private names (also against one shared name), all interleavings',
  T1, ['src/main.c', 'src/parse.c', 'src/preprocess.c'],
  [('per-unit declaration table and per-unit set of static identifiers', 'src/main.c compilation_unit_get_declaration_table_for_ident, lookup_declaration'), ('per-unit sleepers', 'src/main.c sleeper tables'), ('per-thread macro tables that are reset for every file', 'src/preprocess.c, src/main.c reset_context')],
  [('static sleeper table', 'work waiting to learn whether a name is static', 'src/main.c struct compilation_unit')], ['behaviour of the produced executable']),
P('P07', 'A failed or incomplete output write is never reported as success',
  'If opening, writing or completing any requested output file (executable, library, object file, debug information, preprocessed source) fails or only part of it reaches the disk, the compiler exits with a non-zero code and says so. Conversely, when it exits with code 0 every requested output exists and has its complete contents.',
  ['fault_sequences', 'programs', 'configurations'], 'every output mode, every write-side call failing or being cut short (disk full, sharing violation, i/o error), any number of faults in one run',
  TF, ['src/main.c', 'src/coff_writer.c', 'src/obj_writer.c', 'src/std.c', 'src/windows.c'],
  [('writing of files', 'src/std.c os_write_file, src/main.c'), ('writing of the PDB', 'src/coff_writer.c write_msf'), ('writing of objects', 'src/obj_writer.c'), ('preprocessed output', 'src/main.c write_to_preprocessed_file')],
  [], ['exit code, diagnostics and contents of the simulated disk']),
P('P08', 'Input that cannot be read completely is never compiled as if it were complete',
  'If opening, querying or reading a source file, an included file or a library fails or returns fewer bytes than the file has, the compiler exits with a non-zero code and names the file, or produces exactly what it would have produced had the call succeeded. It never accepts a program made of part of a file.',
  ['fault_sequences', 'schedules', 'programs'], 'every read-side call failing or returning short data, for sources, headers and libraries, any number of faults, any interleaving of the threads that load files',
  TF, ['src/preprocess.c', 'src/main.c', 'src/std.c', 'src/ar.c'],
  [('loading of files', 'src/std.c os_load_file, src/preprocess.c load_file'), ('search through include directories', 'src/preprocess.c'), ('libraries', 'src/ar.c, src/main.c')],
  [('file table', 'each source or header that was loaded', 'src/main.c globals.file_table')], ['exit code, diagnostics, behaviour of the produced executable']),
P('P09', 'A failing compilation leaves existing outputs alone',
  'If the program is rejected, or an input cannot be read, the executable, library, object file and debug information of an earlier successful compilation are neither modified, truncated nor deleted, and no new ones appear. Source files, headers and libraries are never modified by any compilation.',
  ['fault_sequences', 'programs', 'schedules'], 'all rejected programs, all read-side faults, all interleavings, all output modes',
  'Tests start from an empty output directory and only look at exit codes.', ['src/main.c', 'src/coff_writer.c', 'src/obj_writer.c'],
  [('output is written only after all stages ended without an error', 'src/main.c')], [], ['contents of the simulated disk before and after']),
P('P10', 'Running out of a resource ends the compilation cleanly',
  'If memory cannot be reserved or allocated, or a thread, event, directory search or registry query cannot be obtained, the compiler either still produces the correct result or ends with a non-zero exit code and a message. It never crashes with an access violation, never hangs, and never reports success with a wrong or missing output.',
  ['fault_sequences', 'schedules', 'configurations'], 'every allocation, thread, event, search and registry call failing at any occurrence and in any combination',
  TF, ['src/main.c', 'src/std.c', 'src/windows.c', 'src/coff_writer.c'],
  [('arena growth', 'src/std.c'), ('thread start-up', 'src/main.c'), ('command line and directories', 'src/main.c, src/windows.c')], [], ['end status, exit code and output']),
P('P11', 'Equal inputs give equal outputs',
  'With one worker thread, two compilations of the same inputs with the same options write identical output files and messages, except for time stamps and the identifiers derived from them, whatever the time of day, the addresses the system hands out, the contents of uninitialised memory, the number of processors and the order in which directories are listed. With several threads the outputs have the same content up to the order in which entities are laid out.',
  ['schedules', 'configurations', 'histories'], 'all programs, clocks (also jumping ones), address layouts, directory orders, processor counts and interleavings',
  'Tests never compare two outputs.', ['src/main.c', 'src/coff_writer.c', 'src/obj_writer.c', 'src/std.c'],
  [('arenas hand out zeroed memory', 'src/std.c'), ('layout order', 'src/main.c, src/coff_writer.c'), ('time stamps', 'src/coff_writer.c, src/obj_writer.c')], [], ['bytes of the output files with the time stamp fields masked']),
P('P12', 'Every source and header is one snapshot, and is included as asked',
  'However many units include a header concurrently and under whatever spelling of its path, each inclusion sees the same complete contents, a header marked to be included once contributes exactly once to each unit, and a source or header that changes on disk while the compiler runs is seen in one version by all units (or the compiler exits with a non-zero code and names it). Concurrent loading never duplicates, drops or mixes file contents. An embedded file is seen whole and in one version by each use of it.',
  ['schedules', 'fault_sequences', 'programs'], 'all include graphs over several units, all interleavings of the loading threads, files replaced at any instant of the run',
  T1 + ' No test changes a file during compilation.', ['src/preprocess.c', 'src/main.c'],
  [('table of loaded files with an in-progress mark', 'src/preprocess.c load_file'), ('once-only marks per unit', 'src/preprocess.c'), ('include cache', 'src/preprocess.c')],
  [('file table', 'one entry per path', 'src/main.c globals.file_table')], ['behaviour of the produced executable; diagnostics']),
P('P13', 'An interrupted compilation does no lasting harm',
  'If the compiler is killed at an arbitrary instant, and whatever it was writing is left torn, then running it again on the same sources gives the same exit code, messages and outputs as a first run on a clean disk. Sources, headers and libraries keep their contents.',
  ['crash_points', 'histories', 'schedules'], 'every instant of a compilation, every output mode, every length of the torn last write, several crashes in a row',
  'Tests never kill the compiler.', ['src/main.c', 'src/coff_writer.c', 'src/obj_writer.c', 'src/std.c'],
  [('outputs are created anew and written from memory', 'src/std.c os_write_file, src/coff_writer.c write_msf'), ('an existing output is never an input', 'src/main.c')], [], ['disk contents after the second run']),
P('P14', 'Debug information belongs to its executable and covers it',
  'The debug information written next to an executable carries the identifier the executable names, is structurally complete, and lists every function and global variable of the program (thread-local ones excepted) with its type, at the address where the executable has it, with the line table of the source files. This holds for every thread count and interleaving and for every time the clock shows during the compilation.',
  ['schedules', 'programs', 'configurations'], 'all programs, interleavings and clock values',
  'No test reads debug information.', ['src/coff_writer.c', 'src/main.c'],
  [('identifier in the executable and in the PDB', 'src/coff_writer.c'), ('symbol, type and line streams', 'src/coff_writer.c')], [], ['the .pdb and .exe as read by an independent reader of both formats']),
P('P15', 'Atomic operations and thread-local data of produced programs are sound',
  'In a produced program, operations on atomic objects and interlocked intrinsics take effect indivisibly and in a single total order per object, however the threads of the program interleave, and each thread has its own copy of every thread-local variable, initialised as declared. No update is lost and no torn value is read.',
  ['schedules', 'programs'], 'all interleavings, instruction by instruction, of the threads of produced programs that use atomics, interlocked intrinsics and thread-local variables',
  'Tests run atomics on a single thread.', ['src/emit_x64.c', 'src/parse.c', 'implicit/include/intrinsic.c', 'implicit/include/stdatomic.c'],
  [('locked instructions for atomic types', 'src/emit_x64.c'), ('interlocked intrinsics', 'implicit/include'), ('thread-local storage directory', 'src/main.c, src/coff_writer.c')], [], ['history of the values the program observes']),
P('P16', 'Object files define and reference what the sources do, under every schedule',
  'Object files written by the compiler contain one definition for each external entity the sources define and one reference for each they use but do not define, with relocations such that linking them gives a program that means the same as compiling the sources directly, and debug information that has every function and variable where the linked program has it. This holds for every thread count and interleaving and for every way to split the sources into objects.',
  ['schedules', 'programs', 'configurations'], 'all valid programs, splits into objects, thread counts and interleavings',
  T1, ['src/obj_writer.c', 'src/main.c'],
  [('symbol table and relocations', 'src/obj_writer.c')], [], ['program linked from the objects by an independent linker (lld-link)']),
P('P17', 'Preprocess-only output is complete and independent of threads',
  'When asked only to preprocess, the compiler writes the preprocessed text such that compiling that text means the same as compiling the original sources, whatever the number of threads and their interleaving. If the text cannot be written completely it exits with a non-zero code and a message.',
  ['schedules', 'fault_sequences', 'programs'], 'all programs, interleavings and write faults in preprocess-only mode',
  TF, ['src/main.c', 'src/preprocess.c'],
  [('output of preprocessed tokens', 'src/main.c worker_preprocess_file, write_to_preprocessed_file')], [], ['the preprocessed text, and the program compiled from it']),
P('P18', 'Library and linker directives in sources take effect exactly once',
  'Every library that any unit asks for is searched, every alternate name that any unit declares is honoured, every import or export that any unit declares ends up in the output exactly once and bound to the right library, whichever threads meet these directives first. This holds also when several units repeat the same directive.',
  ['schedules', 'programs', 'configurations'], 'all programs with library, alternate-name, import and export directives in several units, all interleavings',
  T1, ['src/preprocess.c', 'src/main.c', 'src/explain.c', 'src/coff_writer.c', 'src/ar.c'],
  [('lists guarded by spin locks', 'src/preprocess.c #pragma comment'), ('lookup of imports in libraries', 'src/explain.c, src/ar.c'), ('import and export tables', 'src/coff_writer.c')],
  [('list of libraries', 'libraries from the command line and the sources', 'src/main.c globals.specified_libraries'), ('list of alternate names', 'source and destination of each', 'src/main.c globals.alternate_names')], ['import and export tables of the output']),
P('P19', 'The Windows SDK is found deterministically, and its absence is reported',
  'The installed SDK with the highest version is used whatever the order in which the system lists versions, and directories, and whichever of the registry queries succeed first. If no usable SDK can be determined, or a library of it is missing or unreadable, the compiler says so and either ends with a non-zero exit code or compiles programs that do not need it.',
  ['configurations', 'fault_sequences'], 'all sets and orders of installed versions, all failures of registry queries and directory listings',
  'Tests run with the one SDK of the test machine and a healthy registry.', ['src/main.c', 'src/windows.c'],
  [('search for the newest version', 'src/main.c find_windows_kits_root_and_sdk_version, hacky_find_newest_system_include_path')], [], ['files the compiler opens, its exit code and messages']),
P('P20', 'Initialised data is what its initialisers say, wherever the image is loaded',
  'Every object with static storage duration starts with the value its initialiser gives it and zero where there is none: integers, floating values, strings, bit-fields, nested aggregates, unions, designators, and addresses of other objects, string literals and functions, whether those are static, global, thread-local, defined in another unit or imported. This holds at every address the image can be loaded at, in any section, with any alignment the declaration asks for, whichever unit or thread produced the object, and whatever else is in the image. Every object that is not constant can be written.',
  ['programs', 'configurations', 'schedules'], 'all static initialisers of the supported types, all mixtures of objects, sections and alignments, all load addresses, all interleavings',
  'Tests load each image once, at its preferred address, in one order of units; a base relocation that is missing, doubled or out of place only shows when the image is moved.', ['src/main.c', 'src/parse.c', 'src/coff_writer.c'],
  [('evaluation of static initialisers', 'src/main.c evaluate_static_initializer, emit_patch; src/parse.c initialisers'), ('layout of objects and application of patches', 'src/coff_writer.c'), ('base relocations and TLS directory', 'src/coff_writer.c'), ('per-thread patch lists joined at the end', 'src/main.c struct context, src/coff_writer.c')],
  [], ['memory of the produced executable when it starts']),
P('P21', 'Start-up code hands a program what the system gave it, and its result back',
  'A program that begins with main, wmain, WinMain or wWinMain instead of _start is compiled to an executable that, when it is started, calls that function exactly once: with the arguments the rules of Windows for command lines (quotes, doubled quotes, backslashes before quotes, blanks and tabs) split the command line into, in the right width and ended by a null pointer; with the environment, without the hidden entries; with the instance handle, the command line without the name of the program and the show command for WinMain; and ends the process with the value the function returns. Which of several such functions is chosen, and the subsystem, follow the documented order and the -subsystem option, whatever the interleaving of the compilation; a program that defines _start itself gets none of it. If the start-up source cannot be read, the program is refused.',
  ['programs', 'inputs', 'configurations', 'schedules', 'fault_sequences'], 'all programs with these functions, all command lines and environments, all interleavings of the compilation, all read faults of the start-up source',
  'Tests run main with one fixed command line; what arrives in argv depends on what the system passes in, and the start-up source is read and parsed between two stages by one thread, in whatever state the parallel stage left it.', ['src/main.c', 'implicit'],
  [('choice of the entry point', 'src/main.c table of entry points'), ('start-up source', 'implicit/pre_*.c'), ('reading and parsing it', 'src/main.c worker_preprocess_file')], [], ['arguments the program receives, its exit code, subsystem of the image']),
P('P22', 'Exceptions reach the right handler, and any instruction can be unwound',
  'Whenever an exception happens while a produced program runs - raised by it, by the processor, or at an arbitrary instruction from outside - the filters of the __try statements that are active at that point are asked from the innermost to the outermost, each with the right exception code and with the values the variables of its function have at that moment; the first filter that accepts makes its __except block run in its function, with the variables as they were left, a filter that says so lets the program continue as if nothing had happened, and an exception nobody accepts ends the program. For that, the unwind information of the executable gives the true caller and the true contents of all preserved registers at every single instruction of every function, prologues and epilogues included, and a function keeps nothing below the stack pointer. This holds for nested, recursive and indirect calls, for functions of all frame layouts, for exceptions in filters and in __except blocks, and whatever the interleaving of the compilation; a statement the compiler cannot generate code for is refused.',
  ['programs', 'fault_sequences', 'schedules'], 'all programs with __try statements, all instructions at which an exception can happen, all interleavings of the compilation',
  'A test raises one exception at one place; where an exception hits is an event from outside the program, and every instruction boundary of every function is a different state of stack and registers. Filters are separate functions that are compiled by whichever thread gets them and depend on the layout of the function around them.', ['src/parse.c', 'src/emit_x64.c', 'src/main.c', 'src/obj_writer.c', 'src/coff_writer.c'],
  [('parsing of __try and filters', 'src/parse.c parse_statement'), ('frames, prologue, epilogue, regions', 'src/emit_x64.c emit_code_for_function'), ('unwind codes and scope tables', 'src/obj_writer.c, src/coff_writer.c')], [], ['records the program writes, exception log, unwind result at each instruction']),
]
NA = [
P('N01', 'Generated code implements the C semantics of expressions and statements', 'For every valid program of one unit compiled by one thread, the produced machine code computes what C11 prescribes.', ['programs', 'inputs'], 'all valid programs', 'Samples only.', ['src/parse.c', 'src/emit_x64.c'], [('code generation', 'src/emit_x64.c')]),
P('N02', 'Preprocessing follows the standard', 'Macro expansion, conditional inclusion, stringification and token pasting give the token sequence C11 prescribes for every input.', ['inputs'], 'all sources', 'Samples only.', ['src/preprocess.c'], [('macro expansion', 'src/preprocess.c')]),
P('N03', 'Constant expressions are folded to the value they have at run time', 'Every constant expression evaluates at compile time to the value C11 prescribes.', ['inputs'], 'all constant expressions', 'Samples only.', ['src/parse.c'], [('folding', 'src/parse.c')]),
P('N04', 'Structure layout and calling convention match the platform ABI', 'Sizes, alignments, bit-field placement, argument passing and variadic calls agree with the Microsoft x64 ABI.', ['programs'], 'all types and signatures', 'Samples only.', ['src/parse.c', 'src/emit_x64.c'], [('layout', 'src/parse.c')]),
P('N05', 'Inline assembly and intrinsics encode the instructions written', 'Every supported instruction with every operand combination is encoded as the processor manual prescribes.', ['inputs'], 'all instructions and operands', 'Samples only.', ['src/parse_asm_block.c', 'src/emit_inline_asm_block.c'], [('encoder', 'src/emit_inline_asm_block.c')]),
P('N06', 'Inferred print formats match their arguments', 'A print-like call prints every argument by its type, whatever the mix of explicit and inferred formats.', ['inputs'], 'all argument lists', 'Samples only.', ['src/parse.c'], [('printlike', 'src/parse.c')]),
P('N07', 'Command line options are parsed as documented', 'Every documented option, in every accepted spelling, has its documented effect and malformed ones are rejected.', ['inputs'], 'all command lines', 'Samples only.', ['src/cli.c'], [('option table', 'src/cli.c')]),
P('N08', 'Malformed input never corrupts the compiler', 'Arbitrary bytes as a source, library or object file never make a single-threaded compiler access memory out of bounds.', ['inputs'], 'all byte strings', 'Samples only.', ['src/preprocess.c', 'src/parse.c', 'src/ar.c'], [('parsers', 'src/preprocess.c, src/parse.c, src/ar.c')]),
P('N09', 'Warnings are issued exactly where documented', 'Each warning is printed for each construct it describes and for no other, and can be disabled.', ['inputs'], 'all programs', 'Samples only.', ['src/diagnostic.c'], [('warnings', 'src/diagnostic.c')]),
]
WHY = {'N01': 'a pure function of the input once threads are fixed; schedule-dependence of the result is P02', 'N02': 'a pure function of the input; concurrency of file loading is P12',
       'N03': 'a pure function of the input', 'N04': 'a pure function of the input', 'N05': 'a pure function of the input; indivisibility of the instructions chosen for atomics is P15', 'N06': 'a pure function of the input',
       'N07': 'a pure function of the command line', 'N08': 'a pure function of the bytes of one file, decided by fuzzing and not by schedules or faults; truncated reads and schedules are P08 and P03', 'N09': 'a pure function of the input; independence of the set of diagnostics from the schedule is P01'}
CLAIMED = json.load(open(os.path.join(ROOT, 'tools', 'claimed.json')))
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in L + NA: f.write(json.dumps(p) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
     'hooks': {'guard': 'HLC_SIMULATION', 'enable': 'sim/build.py compiles /repo/src/main.c with -DHLC_SIMULATION and memory-access instrumentation', 'source_commits': ['8fea52d']},
     'checks': [], 'not_applicable': []}
for p in L:
    if p['id'] in CLAIMED:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'], 'technique': CLAIMED[p['id']]['technique'], 'level': 'exploration', 'level_note': CLAIMED[p['id']]['note']})
    else: m['not_applicable'].append({'property': p['id'], 'reason': 'not claimed: no sound check has been built yet'})
for p in NA: m['not_applicable'].append({'property': p['id'], 'reason': WHY[p['id']]})
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
