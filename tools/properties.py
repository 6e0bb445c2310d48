prop('P01', 'Expressions evaluate as the language defines',
     'Every expression built from numbers, strings, booleans, nil, arrays, variables and the arithmetic, bitwise, shift, comparison, equality, logical, negation, indexing and interpolation operators evaluates to the value that precedence, left associativity, left-to-right evaluation and short-circuiting give. Truthiness is the same everywhere (only nil and false are false). Operands that an operator does not accept raise the documented error class with its message, and print and string conversion render each value the same way.',
     ['programs', 'inputs'], 'all expressions over the operators and value kinds, in any nesting and statement context',
     'The examples evaluate a few dozen fixed expressions; precedence, evaluation order and operand errors depend on the combination of operators and operand kinds.',
     ['parser.c', 'compiler.c', 'vm.c', 'value.c', 'object.c', 'string.c'],
     [('precedence climbing', 'parser.c: expression functions'), ('binary and unary opcodes', 'vm.c: vm_run'), ('constant folding', 'compiler.c: optimizer')], OBS,
     LOX, note=LOXNOTE)
prop('P02', 'Lexical scoping and closures',
     'A name refers to the innermost declaration visible at that point of the source, and otherwise to the global of that name; shadowing, nested functions and blocks, recursion and assignments through any number of closures sharing a variable all act on that one variable. A captured variable keeps living after its scope ends and every execution of a declaration or loop iteration makes a new one. Reading an undefined name raises NameError.',
     ['programs', 'histories'], 'all programs over declarations, assignments, nested functions, blocks, loops and closures, and all orders of calling the closures',
     'Tests sample single closures; sharing between sibling closures, loops and nested captures after the frame is gone needs arbitrary call histories.',
     ['compiler.c', 'vm.c', 'object.c'], [('upvalue resolution', 'compiler.c: resolveUpvalue'), ('open upvalue list', 'vm.c: captureUpvalue, closeUpvalues')], OBS,
     LOX, note=LOXNOTE, state=[('openUpvalues', 'captured variables still on the stack', 'vm.h: LxThread')])
prop('P03', 'Loops and jumps run exactly the iterations they should',
     'while, for and foreach execute their condition, body and step in order, once per iteration; break leaves the innermost enclosing loop and continue goes to its next iteration (running the step of a for loop), at any nesting of loops, conditionals and blocks. Variables of enclosing scopes have their values afterwards as if the jumps were ordinary control flow, and the evaluation stack is unaffected.',
     ['programs'], 'all nestings of loops, conditionals, break, continue and return, with any bounds',
     'Jump patching and local clean-up depend on the nesting and on which locals are live at the jump; examples have a handful.',
     ['compiler.c', 'vm.c'], [('loop compilation and jump patching', 'compiler.c: emitNode loops'), ('iterators', 'vm.c: OP_ITER, OP_ITER_NEXT')], OBS, LOX, note=LOXNOTE)
prop('P04', 'Exceptions reach the right handler and clean-up runs once',
     'A thrown error (by throw, by the VM or by a native method) goes to the innermost active try whose catch clause class matches, searching clauses in order and unwinding calls, loops and blocks; that clause sees the same error object, else runs only without an error, ensure runs exactly once on the normal and on the error path, and execution continues after the try with all variables intact. An error nobody catches ends the program with exit status 1 and reports its class and message after all earlier output.',
     ['programs', 'fault_sequences'], 'all nestings of try/catch/else/ensure, throws at any point including inside catch and ensure, called functions, blocks and native callbacks',
     'Unwinding depends on the combination of nesting, the position of the throw and the kind of frames crossed; tests check a few shapes.',
     ['compiler.c', 'vm.c', 'errors.c', 'vm.h'], [('catch tables', 'compiler.c: TRY_STMT, addCatchRow'), ('unwinding', 'vm.c: throwError, findCatchRow, unwindErrInfo'), ('native errors', 'vm.c: captureNativeError')], OBS, LOX, note=LOXNOTE)
prop('P05', 'Blocks, yield and non-local control flow',
     'A block given to a call runs with the arguments it is yielded (missing ones nil, extra ones ignored), in its lexical environment, once per yield; the value of its last expression is the value of the yield, and continue, break and return in it end the block, the iteration or the call as defined for yield and for each native iteration method. Blocks passed on with & or captured behave like the original, and yielding without a block raises an error.',
     ['programs', 'histories'], 'all programs that pass blocks to user functions and native methods, nested to any depth, with jumps out of blocks',
     'Interplay of nested yields, native frames and jumps depends on call history; tests check fixed shapes.',
     ['block.c', 'vm.c', 'array.c', 'compiler.c'], [('block stack', 'vm.c: v_blockStack'), ('yield', 'block.c: lxYield, lxBlockYield'), ('jumps as errors', 'vm.c: OP_BLOCK_BREAK, OP_BLOCK_CONTINUE, OP_BLOCK_RETURN')], OBS, LOX, note=LOXNOTE)
prop('P06', 'Arguments bind to parameters',
     'For every parameter list (required, default, rest, keyword and block parameters) and every call (positional, splatted and keyword arguments, block), each parameter gets exactly the value the call gives it, defaults are evaluated left to right when needed and can refer to earlier parameters, the rest parameter gets the surplus in order. Calls with too few, too many or unknown arguments raise ArgumentError with the expected and given counts.',
     ['programs', 'inputs'], 'all combinations of parameter lists and argument lists within the limits of the language',
     'The number of combinations is far beyond the examples, and each takes a different path through the argument shuffling.',
     ['vm.c', 'compiler.c', 'parser.c'], [('argument binding', 'vm.c: doCallCallable'), ('arity check', 'vm.c: checkFunctionArity'), ('call compilation', 'compiler.c: CALL_EXPR')], OBS, LOX, note=LOXNOTE)
prop('P07', 'Classes, modules, dispatch and reflection',
     'Sending a message, reading or setting a property, calling super and using an operator on an object runs the definition found by searching singleton class, class, modules included (later ones first) and superclasses in order, with getters, setters, methodMissing and reopened classes taking part, and this bound to the receiver. include, extend, defineMethod and aliasMethod take effect at once for all existing and later objects, ancestors, class, superClass and respondsTo report the same order, and missing methods or properties behave as documented.',
     ['programs', 'histories'], 'all class and module graphs, and all histories of definitions, includes, extends and calls',
     'Lookup depends on the whole graph and on the order of changes to it; tests use small fixed hierarchies.',
     ['vm.c', 'object.c', 'runtime.c'], [('method lookup', 'vm.c: findMethod, instanceFindMethod; object.c'), ('include and extend', 'object.c: includeModule; runtime.c'), ('super', 'vm.c: OP_INVOKE super, callSuper')], OBS, LOX, note=LOXNOTE)
prop('P08', 'The optimizer does not change behaviour',
     'Every program behaves identically (same output, errors and exit status) with the bytecode optimizer on and with it disabled, and both are what the language semantics gives.',
     ['programs', 'configurations'], 'all programs, run with and without the optimizer',
     'Each optimization applies to instruction patterns whose surroundings (jump targets, catch tables, constants) vary without bound.',
     ['compiler.c'], [('peephole and constant folding passes', 'compiler.c: optimizeIseq')], OBS, LOX, note=LOXNOTE)
prop('P09', 'Garbage collection is transparent',
     'Every program behaves identically whatever the garbage collector does: collecting the young generation or everything at every allocation, both, or never. No value that the program can still reach is freed or changed.',
     ['programs', 'schedules', 'configurations'], 'all programs and all points at which a collection can happen',
     'A missing root or write barrier only shows when a collection falls between particular steps; tests collect at a few points.',
     ['memory.c', 'memory.h', 'object.c', 'vm.c'], [('marking of roots', 'memory.c: collectGarbage, collectYoungGarbage'), ('remembered set', 'memory.h: objWrite'), ('hiding of objects in construction', 'memory.c: hideFromGC')], OBS,
     LOX + ' under every GC stress mode', note=LOXNOTE)
prop('P11', 'Arrays behave as sequences',
     'After any history of operations (index read and write, push, pop, pushFront, popFront, insertion, deletion, clear, dup, concatenation, reverse, sort, sortBy, join, slicing, iteration and reduction) an array has exactly the elements a sequence would have, in order, and each operation returns what it documents; copies are independent and aliases share. Out-of-range reads give nil, and wrong arguments raise an error and leave the array unchanged.',
     ['histories', 'inputs'], 'all sequences of operations on any number of arrays and aliases',
     'Capacity growth, shared storage of copies and popFront offsets depend on long histories; tests use short ones.',
     ['array.c', 'object.c', 'value.c'], [('copy on write sharing', 'array.c: dup'), ('growth', 'value.c: writeValueArray')], OBS, LOX, note=LOXNOTE)
prop('P12', 'Maps behave as finite functions',
     'After any history of operations (index read and write, hasKey, delete, clear, dup, merge, slice, keys, values, size, iteration, rehash) a map holds exactly the last value written for each key not deleted since, where keys are equal as the language defines equality, for strings, numbers, arrays and other keys. Operations return what they document, copies are independent, and every entry is visited exactly once by iteration.',
     ['histories', 'inputs'], 'all sequences of operations with colliding, deleted and re-inserted keys over any growth of the table',
     'Tombstones, probing and growth interact with the history and the hash of the keys; tests insert a handful of keys.',
     ['map.c', 'table.c', 'object.c'], [('open addressing', 'table.c: tableSet, tableGet, tableDelete'), ('hashing', 'value.c, object.c: valHash')], OBS, LOX, note=LOXNOTE)
prop('P13', 'Strings behave as mutable character sequences',
     'After any history of operations (push, insertion, index read and write, clear, concatenation, repetition, substr, rest, split, index, endsWith, compact, padRight, dup, comparison, interpolation, use as map key) every string has the contents the operations define; literals are fresh objects, copies are independent, aliases share, and equality is by content. Bad indexes and arguments raise the documented errors and change nothing.',
     ['histories', 'inputs'], 'all sequences of operations on any number of strings and aliases',
     'Buffer growth, cached hashes, interning and self-referential operations depend on the history.',
     ['string.c', 'object.c'], [('buffer operations', 'object.c: pushCString, insertCString'), ('cached hash', 'object.c: hash field'), ('interning', 'object.c: internedString')], OBS, LOX, note=LOXNOTE)
prop('P14', 'Frozen objects never change, duplicates are independent',
     'Once an object is frozen no operation changes it: every mutating operation, property set or index write raises an error and leaves it as it was, while reading works. dup of an array, map, string or instance gives an unfrozen object with the same contents that shares nothing mutable of its own with the original; isFrozen, isSame and == tell them apart.',
     ['histories', 'inputs'], 'all mutating operations on all kinds of objects, before and after freeze and dup, in any order',
     'It quantifies over every mutating operation and history; tests try one or two each.',
     ['object.c', 'array.c', 'map.c', 'string.c', 'runtime.c'], [('frozen flag', 'object.c: objFreeze, isFrozen'), ('dup', 'array.c, map.c, string.c, runtime.c: dup')], OBS, LOX, note=LOXNOTE)
prop('P15', 'The iteration protocol',
     'foreach over an array, a map, or an object with iter or iterNext visits exactly the elements that the iterable provides, in order, binding one or more variables to each (destructured when more than one), until the end is reached; nested and repeated iterations do not disturb each other. An object that is not iterable raises an error.',
     ['programs', 'histories'], 'all iterables, loop bodies and nestings',
     'Iterator state on the stack interacts with the body; tests iterate over small literals.',
     ['vm.c', 'runtime.c', 'compiler.c'], [('iterators', 'vm.c: createIterator, OP_ITER_NEXT; runtime.c: lxIteratorNext')], OBS, LOX, note=LOXNOTE)
prop('P23', 'Scripts are found, loaded and share what they should',
     'requireScript, loadScript and autoload find a script by its absolute path or in the first directory of the load path that has it, under its name or with .lox added; a missing script is a LoadError, one with a syntax error a SyntaxError, and neither changes anything. A loaded script runs to its end or its return once per load, sharing globals, functions, classes and constants with the others, which it defines globally wherever it is loaded from; its errors propagate to where it was loaded, and __FILE__ and __DIR__ name the script itself. requireScript runs each file once (also when scripts require each other) and says whether it did; a constant with an autoload is loaded when it is first used and not found.',
     ['programs', 'histories'], 'all programs of several files, load paths and orders of loading',
     'What is loaded depends on the history of loads, errors and changes of the load path; tests load one or two scripts from the top level.',
     ['vm.c', 'runtime.c'], [('loading', 'vm.c: loadScript; runtime.c: lxLoadScript, lxRequireScript'), ('finding', 'runtime.c: loadScriptHelper'), ('autoload', 'runtime.c: lxAutoload; vm.c: GET_CONST')], OBS, LOX, note=LOXNOTE)
prop('P20', 'Files and pipes hold what was written',
     'Reading through a File, File.read, readLines, getline, getchar or a pipe returns exactly the characters that the writes before put there, at the position that handle has from its own reads, writes, seek and rewind; every handle of a file sees the others\' writes at once, and handles opened with the documented flags (read, write, create, exclusive, truncate, append) do what the flags say. Names follow create, rename, unlink and mkdir, and exists, isDir, stat and glob report them. An operation that cannot be done (missing or existing names, a handle that is closed or not opened for it, a bad position or argument) raises the error of that case and changes nothing, and a closed handle never touches a file opened later.',
     ['programs', 'histories'], 'all histories of operations by any number of handles on any number of files, with contents of any length',
     'What an operation gives depends on all that happened to the file, its name and the handle before; tests write and read one short file.',
     ['io.c', 'file.c', 'dir.c'], [('reading and writing', 'io.c: IORead, IOWrite, IOReadFd, lxIOGetline'), ('opening', 'file.c: lxFileInit, lxFileOpenStatic, lxFileCreateStatic'), ('closing', 'io.c: IOClose')], OBS,
     'TLA+ semantics of the language with files, names and handles (spec/Lox.tla) run by TLC on generated histories; clox has to behave the same', note=LOXNOTE)
prop('P29', 'Constants are found through the lexical and class scopes',
     'A capitalized name refers to the constant of the class being executed, of its superclasses and included modules, of the enclosing classes, and then to the global constant, in that order; C::X finds the constant X in C only. Constants in one scope never change those of another, nested classes keep their qualified names, and a missing constant raises NameError naming it. Superclasses and the classes of catch clauses are found in the same way; defining a class or module again adds to it, and is an error if a superclass is given or the name is taken by the other kind.',
     ['programs', 'histories'], 'all nestings and hierarchies of classes and modules with constants, and all places of use',
     'Lookup depends on the whole hierarchy and on the method that is running; tests use one or two levels.',
     ['runtime.c', 'vm.c', 'compiler.c'], [('constant lookup', 'runtime.c: findConstantUnder'), ('cref stack', 'vm.c: pushCref')], OBS, LOX, note=LOXNOTE)
prop('P16', 'Threads run concurrently as the interleavings of their steps',
     'A thread runs its function once, sharing globals, captured variables and objects with the others; whatever the scheduler does, the result is that of some interleaving at the points where a thread waits, yields or has used up its time slice, each statement in between acting as if alone. joinThread returns after the thread has ended and only once; thread-local values belong to one thread; an uncaught error, return or exit in a thread ends that thread only and everything else goes on; a runnable thread eventually runs.',
     ['programs', 'schedules'], 'all programs with any number of threads and all schedules',
     'A test sees one schedule per run; whether every schedule gives an allowed outcome needs the set of all of them.',
     ['thread.c', 'vm.c'], [('global VM lock', 'vm.c: acquireGVL, releaseGVL'), ('thread creation and end', 'thread.c: newThreadSetup, runCallableInNewThread; vm.c: stopVM'), ('time slices', 'vm.c: opsRemaining')], OBS,
     'TLA+ semantics of the language with threads (spec/Lox.tla): TLC computes the outcomes of all schedules of generated programs, every run of clox has to be one of them; progress programs', note=LOXNOTE)
prop('P17', 'Mutexes exclude each other',
     'Between lock and unlock of a mutex by one thread no other thread gets past a lock of that mutex, whatever is executed in between (including yields, errors, loops that outlast the time slice and other mutexes), so updates of data that is only used under a mutex are never lost. A thread that waits for a mutex gets it when it is free, unlocking a mutex that another thread has raises an error, and a thread that ends releases the mutexes it has.',
     ['programs', 'schedules'], 'all programs with threads, mutexes in a fixed order, and all schedules',
     'Violations need a switch at a particular point inside a critical section; tests do not control the schedule.',
     ['thread.c', 'vm.c'], [('lock and unlock', 'thread.c: lockMutex, unlockMutex, forceUnlockMutexes'), ('no switch with a mutex held', 'vm.c: releaseGVL mutexCounter')], OBS,
     'TLA+ specification of threads and mutexes (spec/Locks.tla), checked by TLC for all interleavings; event traces recorded from clox are validated against it; outcomes of all schedules of small programs (spec/Lox.tla)', note='Trace validation decides recorded runs exactly (each trace is or is not a behaviour); the runs themselves are samples of programs and schedules.')
prop('P18', 'Processes have their own state and report how they ended',
     'Process.fork creates a process that starts with a copy of the whole state and runs the function (or goes on from the call, with nil); nothing the child does to its variables changes the parent and the reverse. The child ends with the status of its exit, 0 at the end, 1 after an uncaught error; waitpid returns the status of exactly the child asked for, once, and -1 for others, and waitall returns every remaining child with its status.',
     ['programs', 'histories'], 'all trees of processes, ways to end and orders of waiting',
     'Tests fork a child or two with one way of ending.',
     ['process.c', 'vm.c'], [('fork and wait', 'process.c: lxForkStatic, lxWaitpidStatic, lxWaitallStatic'), ('exit status', 'vm.c: stopVM')], OBS,
     LOX + '; processes are modelled in it', note=LOXNOTE)
prop('P25', 'A program ends in order: output, exit hooks, status',
     'However a program ends (last statement, exit, _exit, uncaught error, in nested calls, in try bodies, in forked processes) everything it printed appears exactly once and in order, functions given to atExit run exactly once in reverse order of registration (none after _exit) and can register, print, fail or exit themselves without keeping the other hooks from running, no ensure clause or later statement runs after exit, and the exit status is the one given (modulo 256), 0 at the end, 1 after an uncaught error.',
     ['programs', 'fault_sequences'], 'all programs and all points and ways of ending, with any hooks registered',
     'Tests check the output of programs that end normally; the other endings and their combination with hooks and child processes are not covered.',
     ['vm.c', 'main.c', 'runtime.c', 'errors.c'], [('end of the VM', 'vm.c: stopVM, runAtExitHooks'), ('uncaught errors', 'vm.c: showUncaughtError'), ('output buffering', 'main.c')], OBS,
     LOX, note=LOXNOTE)
