"""Writes /verif/properties.jsonl (run after editing this file)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))

B="xpython/byteop/"
prop("C01","Operator instructions compute what the Python operator computes",
"Every unary, binary, in-place and slice operator instruction, in every supported bytecode version, removes exactly its operands from the value stack and leaves the result that the corresponding Python operator gives on those operands, with the deeper operand as the left one. In-place forms first try the operand's own in-place operation. If the operator raises, the program sees that very exception, and in all cases nothing below the operands changes.",
["inputs","configurations"],"all operand objects (including user classes whose operators have side effects or raise), all stack contents below them, all operators of all bytecode versions",
"Tests run a handful of programs over ints, strings and lists; a swapped operand order, a wrong table entry or a lost in-place result only shows for non-commutative or user-defined operands of that one operator in that one version.",
[B+"byteop.py",B+"byteop312.py",B+"byteop24.py","xpython/vm.py"],
[("operator tables and the unary, binary and in-place helpers",B+"byteop.py"),("operator selection in the instruction dispatcher and Python 2 slice handling","xpython/vm.py"),("BINARY_SLICE / STORE_SLICE",B+"byteop312.py")])

prop("C02","Comparisons, identity, membership and exception matching",
"A comparison instruction replaces its two operands by the result of exactly the comparison its argument selects (ordering, equality, identity, membership, or, up to 3.10, exception match), deeper operand first, for every encoding of the argument the supported versions use. The result object of a rich comparison is passed through unchanged, identity tests never call user code, and an exception raised by the comparison reaches the program.",
["inputs","configurations"],"all pairs of operands, all comparison selectors, all bytecode versions",
"Each comparison has several encodings across versions (index, shifted index, inverted flag); tests exercise few selectors per version and mostly with operands for which the mirrored or negated test gives the same answer.",
[B+"byteop24.py",B+"byteop39.py",B+"byteop312.py"],
[("comparison table and COMPARE_OP",B+"byteop24.py"),("IS_OP, CONTAINS_OP, JUMP_IF_NOT_EXC_MATCH",B+"byteop39.py"),("COMPARE_OP with the 3.12 argument encoding",B+"byteop312.py")])

prop("C03","Stack-shuffling instructions permute exactly the documented items",
"Every instruction that only rearranges, duplicates, drops or pushes items on the value stack produces exactly the documented order of the documented items and leaves every deeper item, the block stack, the variables and the position of the next instruction alone. Constants are pushed unchanged.",
["inputs","configurations"],"all stack contents and depths, all counts, all bytecode versions",
"The effect must hold for every stack depth and content; a test program only shows an error if the swapped items happen to be used later in a distinguishable way.",
["xpython/vm.py",B+"byteop24.py",B+"byteop32.py",B+"byteop311.py"],
[("value-stack primitives: peek, pop, popn, push, set, top","xpython/vm.py"),("POP_TOP, ROT_*, DUP_*",B+"byteop24.py"),("COPY, SWAP, PUSH_NULL",B+"byteop311.py")])

prop("C04","Conditional jumps and loops follow truth value and exhaustion",
"A jump instruction transfers control to its target exactly when its condition holds and otherwise falls through to the next instruction; conditions use Python truth value (or, for the None-tests, identity with None), evaluated exactly once. Operands are popped or kept exactly as the version documents, and a for-loop step pushes the iterator's next item or, only on exhaustion, leaves the loop; any other exception is passed to the program.",
["inputs","configurations"],"all condition values (including objects whose truth test raises or has side effects), all iterators, all targets, all bytecode versions",
"Tests use conditions that are bools or ints and iterators that end normally; truthiness of other values, evaluation count and the exact stack effect on each branch are per-instruction, per-version facts.",
[B+"byteop24.py",B+"byteop27.py",B+"byteop311.py",B+"byteop312.py","xpython/vm.py"],
[("jump primitive","xpython/vm.py"),("JUMP_*, FOR_ITER",B+"byteop24.py"),("POP_JUMP_IF_*, JUMP_IF_*_OR_POP",B+"byteop27.py"),("3.11 directional jumps",B+"byteop311.py")])

prop("C05","Instruction decoding yields the right opcode, operand and next offset",
"For any code and any position, decoding yields the operation at that position with its full operand, including every extended-argument prefix, and resolves the operand to the constant, name, variable, cell or jump target that the bytecode version defines. After a completed jump execution continues exactly at the target, otherwise at the following instruction (skipping inline caches), and the current line number is updated exactly where a new line starts.",
["programs","configurations"],"all byte strings of code, all operand widths and chains of extended arguments, all bytecode versions",
"Extended arguments, large jump offsets, high constant indexes and version-specific operand scaling barely occur in the small test programs.",
["xpython/vm.py"],[("instruction fetch and operand resolution","xpython/vm.py"),("jump","xpython/vm.py")])

prop("C06","Variable access obeys Python's scoping rules",
"Reading a name finds the innermost binding in the order local, global, builtin, using only the scopes its instruction is allowed to use; an unbound name raises NameError (UnboundLocalError for a local variable). Binding or deleting a name changes exactly that one binding in exactly the addressed scope, and binding removes exactly one value from the stack.",
["inputs","programs","configurations"],"all names, all contents of the local, global and builtin namespaces, all bytecode versions",
"Shadowing between scopes, names bound to None or to false values, and deletions are combinations that a few sample programs do not reach for each instruction and version.",
[B+"byteop.py",B+"byteop24.py",B+"byteop311.py","xpython/pyobj.py"],
[("name lookup",B+"byteop.py"),("LOAD/STORE/DELETE of names, globals and fast locals",B+"byteop24.py"),("builtins selection for a new frame","xpython/pyobj.py")])

prop("C07","Closure variables are shared cells, one per activation",
"Each call of a function creates a fresh cell for each of its captured variables, holding the argument's value if the variable is a parameter; inner functions receive the very cells of their defining activation, and reads and writes through any of them are seen by all. Reads of an empty cell raise NameError, and no cell of one activation ever becomes the cell of another activation's variable of the same name.",
["inputs","programs","histories"],"all nestings of functions, same-named variables in unrelated functions, all argument values",
"Interference between same-named captured variables of caller and callee needs a particular call pattern; the closure tests use distinct names.",
["xpython/pyobj.py","xpython/vm.py",B+"byteop24.py",B+"byteop311.py"],
[("cell creation for a new frame","xpython/pyobj.py"),("LOAD_CLOSURE, LOAD_DEREF, STORE_DEREF",B+"byteop24.py"),("MAKE_CELL, COPY_FREE_VARS",B+"byteop311.py")])

prop("C08","Container building, merging, unpacking and formatting",
"Instructions that build or extend a tuple, list, set, dict, slice or string consume exactly their operands and produce the container holding exactly those items in evaluation order (later keys win, or duplicate keyword keys raise TypeError where the version says so). Unpacking pushes exactly the requested number of items so that the first is on top, for any iterable, and raises ValueError when the number of items differs; comprehension-style additions change only the addressed container.",
["inputs","configurations"],"all item values, all counts, all iterables, all bytecode versions",
"Order of keys versus values, order among several merged iterables, and item-count mismatches differ per version; tests build small containers of equal items.",
[B+"byteop24.py",B+"byteop27.py",B+"byteop35.py",B+"byteop36.py",B+"byteop38.py",B+"byteop39.py"],
[("BUILD_*, UNPACK_SEQUENCE, STORE_MAP",B+"byteop24.py"),("LIST_APPEND, SET_ADD, MAP_ADD",B+"byteop27.py"),("BUILD_*_UNPACK",B+"byteop35.py"),("FORMAT_VALUE, BUILD_STRING, BUILD_CONST_KEY_MAP",B+"byteop36.py"),("LIST_EXTEND, SET_UPDATE, DICT_MERGE, DICT_UPDATE",B+"byteop39.py")])

prop("C09","Calls pass the right arguments to the right callable",
"A call instruction removes the callable and all its arguments from the value stack, calls that callable once with the positional arguments in evaluation order followed by any unpacked iterable, and with each keyword bound to its own value, and pushes the one result. A bound method passes its instance first, and an exception raised by the call reaches the program.",
["inputs","configurations"],"all callables, all numbers of positional and keyword arguments, all argument values, all call instructions of all bytecode versions",
"Keyword names and values travel in five different stack layouts across versions; with one keyword, or equal values, a reversed pairing is invisible.",
[B+"byteop.py",B+"byteop24.py",B+"byteop35.py",B+"byteop36.py",B+"byteop37.py",B+"byteop311.py",B+"byteop37pypy.py"],
[("argument collection and the common call path",B+"byteop.py"),("CALL_FUNCTION_KW, CALL_FUNCTION_EX",B+"byteop36.py"),("CALL, KW_NAMES, PRECALL",B+"byteop311.py")])

prop("C10","Arguments bind to parameters as Python's call rules say",
"Calling an interpreted function binds positional arguments, keyword arguments, defaults, keyword-only parameters, *args and **kwargs to its parameters exactly as Python does, for every signature. A call that Python rejects (missing, surplus, duplicate or unknown argument) raises TypeError and does not run the function.",
["inputs","programs"],"all signatures and all argument lists, for both the Python 2 and the Python 3 binding rules",
"The space of signatures times argument lists is combinatorial; tests cover a few dozen accepted calls and hardly any rejected ones.",
["xpython/stdlib/inspect3.py","xpython/stdlib/inspect2.py","xpython/pyobj.py"],
[("Python 3 argument binding","xpython/stdlib/inspect3.py"),("Python 2 argument binding","xpython/stdlib/inspect2.py"),("function call entry","xpython/pyobj.py")])

prop("C11","Function creation keeps code, defaults, closure and annotations apart",
"The function-creating instructions consume exactly the operands their argument announces and yield a function with that code, name and module namespace, whose positional defaults, keyword-only defaults, annotations and closure cells are each the ones supplied, in order, and empty when not supplied.",
["inputs","configurations"],"all combinations of the argument's counts or flags, all supplied values, all bytecode versions",
"There are seven layouts across versions and sixteen flag combinations; tests define functions with at most two of the four ingredients at once.",
[B+"byteop24.py",B+"byteop26.py",B+"byteop32.py",B+"byteop33.py",B+"byteop34.py",B+"byteop36.py",B+"byteop310.py",B+"byteop311.py","xpython/pyobj.py"],
[("MAKE_FUNCTION and MAKE_CLOSURE per version",B+"byteop36.py"),("function object","xpython/pyobj.py")])

prop("C12","Block unwinding: break, continue, return and finally (up to 3.10)",
"Leaving a block by break, continue, return or exception unwinds exactly the enclosing blocks Python says it unwinds, cutting the value stack back to the level recorded at each block's entry. Every pending finally clause on the way runs with the reason for leaving saved so that it is resumed (or overridden) afterwards, and a continue or break ends at the right loop.",
["programs","inputs"],"all block stacks and value-stack depths, all reasons for leaving, bytecode versions before 3.11",
"Correctness depends on the nesting of blocks and on stack leftovers at the time of exit; tests hold a few two-level nestings.",
["xpython/vm.py",B+"byteop24.py",B+"byteop32.py",B+"byteop38.py"],
[("block-stack management and unwinding","xpython/vm.py"),("END_FINALLY, SETUP_*, POP_BLOCK, BREAK_LOOP, CONTINUE_LOOP",B+"byteop24.py"),("POP_EXCEPT",B+"byteop32.py")])

prop("C13","Exceptions are raised, matched and propagated faithfully",
"A raise instruction makes current exactly the exception Python would raise for its operands (class instantiated, instance kept, cause attached, re-raise keeps the active one); any exception an instruction causes becomes the program's current exception. An exception no block of the frame handles propagates unchanged, as the same object, to the calling frame, and out of the outermost frame it ends the run with an error status, never silently.",
["inputs","programs","histories"],"all raised objects and causes, all call depths, all instructions",
"The existing suite reported success while callee exceptions were silently dropped; only propagation through every instruction and call depth settles it.",
["xpython/vm.py",B+"byteop.py",B+"byteop24.py",B+"byteop32.py"],
[("instruction dispatch exception capture and frame evaluation","xpython/vm.py"),("raise helper",B+"byteop.py"),("RAISE_VARARGS",B+"byteop24.py")])

prop("C14","With statements enter once and always exit with the right reason",
"Entering a with block calls the manager's enter method once and keeps its exit method; leaving it, by whatever route, calls that exit method exactly once, with the exception's type, value and traceback if an exception is pending and three Nones otherwise. The pending exception is suppressed exactly when the exit method returns a true value, and a pending return, break or continue is never suppressed (bytecode up to 3.8).",
["programs","inputs"],"all context managers, all routes out of the block, bytecode versions 2.5 to 3.8",
"Each version buries the exit method at a different stack position depending on the exit reason; tests cover some of the routes in some versions.",
[B+"byteop25.py",B+"byteop27.py",B+"byteop32.py",B+"byteop35.py"],
[("WITH_CLEANUP",B+"byteop25.py"),("SETUP_WITH",B+"byteop27.py"),("WITH_CLEANUP_START / FINISH",B+"byteop35.py")])

prop("C15","Generators resume where they stopped and obey the generator protocol",
"A generator runs only between requests: each request resumes right after the last yield with the sent value as the yield's result, and yields exactly the value the program yields; variables and stack are preserved in between. When its body returns it raises StopIteration with the return value and keeps raising StopIteration, an exception in its body reaches the requester, and delegation passes sent values in and results out.",
["histories","programs","inputs"],"all sequences of next/send requests, all yielded and sent values",
"The protocol is a property of whole request histories, such as requests after exhaustion, that the tests' simple for loops never make.",
["xpython/pyobj.py","xpython/vm.py",B+"byteop24.py",B+"byteop33.py"],
[("generator object","xpython/pyobj.py"),("frame resumption","xpython/vm.py"),("YIELD_VALUE, RETURN_VALUE",B+"byteop24.py"),("YIELD_FROM",B+"byteop33.py")])

prop("C16","The call stack is balanced on every exit from a frame",
"Running a frame pushes it on the call stack and, whether it returns, yields or raises, removes it again, so that afterwards the caller's frame is current and the stack of frames is as before. A run of a program that ends normally leaves no frame behind.",
["programs","histories"],"all instruction outcomes, all exits from a frame, all call depths, with and without tracing",
"An unbalanced exit only shows later, when a caller uses the wrong frame, and only for the exit route concerned.",
["xpython/vm.py","xpython/vmtrace.py"],
[("frame push/pop and evaluation loop","xpython/vm.py"),("traced evaluation loop","xpython/vmtrace.py")])

prop("C17","Each interpreter uses exactly its own version's instruction set",
"Creating an interpreter for a supported Python version and implementation selects that version's instruction semantics, and requesting an unsupported one raises an error. An operation that does not exist or is not implemented for the version is rejected with an interpreter error naming it, and which interpreters were created before, in whatever order, makes no difference to any of them.",
["configurations","histories"],"all version/implementation pairs, all sequences of interpreter creations in one process, all operation names",
"Tests create one interpreter version per process, so interference between versions and selection errors for untested versions stay invisible.",
[B+"__init__.py","xpython/vm.py",B+"byteop32.py",B+"byteop38.py",B+"byteop39.py"],
[("version selection",B+"__init__.py"),("unknown-operation rejection","xpython/vm.py")])

prop("C18","Tracing and breakpoints do not change what a program does",
"Running code under the tracing interpreter with a callback that only observes executes the same instructions with the same results, exceptions and frame bookkeeping as the plain interpreter. Setting a breakpoint and later removing it restores the code byte for byte, and executing a breakpointed instruction performs the original instruction.",
["programs","configurations"],"all programs, all event masks, all breakpoint positions",
"The traced loop is a separate copy of the plain loop, so any divergence between the two is possible at every instruction; one small test runs it.",
["xpython/vmtrace.py",B+"byteop24.py"],
[("traced evaluation loop, breakpoint add/remove","xpython/vmtrace.py"),("BRKPT",B+"byteop24.py")])

prop("C19","Running a program leaves the host process as it was and reports its status",
"Running a file or a string, whether it ends normally, raises, exits or cannot be loaded, restores the host's main module, argument vector and module search path. The program sees its own file name and arguments, and the exit status is 0 for a normal end, 1 for an uncaught exception, and the program's own status if it exits itself.",
["inputs","fault_sequences"],"all sources and arguments, every way a run can end, including failures before the first instruction",
"The restore must happen on every failure path; tests run programs that end normally in throw-away processes.",
["xpython/execfile.py","xpython/vm.py"],
[("file, string and code-object runners","xpython/execfile.py"),("top-level code runner","xpython/vm.py")])

prop("C20","Class statements build classes as Python's class protocol says",
"Building a class determines the metaclass from the explicit one and the bases' types by the most-derived rule (conflict raises TypeError), obtains the namespace from its prepare hook if it has one, runs the class body once in that namespace, and calls the metaclass with name, bases, namespace and the remaining keywords. The zero-argument super form refers to the class being defined.",
["inputs","programs"],"all tuples of bases and metaclasses, all keyword arguments, all class bodies",
"Metaclass selection depends on the whole inheritance graph of the bases; tests define classes with plain bases only.",
["xpython/builtins.py"],
[("class building and metaclass calculation","xpython/builtins.py")])

prop("C21","Reported positions are the positions being executed",
"The line number reported for a frame is the line on which the instruction being executed lies, for every instruction offset and every line table, and a traceback lists the frames from the outermost to the one raising, each with its own code, line and instruction position at that moment.",
["programs","inputs"],"all line tables and instruction offsets, all frame chains",
"Tests compare output, not positions; off-by-one errors at line boundaries go unnoticed.",
["xpython/pyobj.py","xpython/vm.py"],
[("line lookup, traceback construction","xpython/pyobj.py")])

prop("C22","Attribute, item and import instructions act on the right object",
"Attribute, item and import instructions operate on exactly the object, name, key and value their version's stack layout designates, perform the access once through Python's own protocol, and push exactly one result where the instruction yields one. Exceptions such as AttributeError, KeyError or ImportError reach the program as such.",
["inputs","configurations"],"all objects, names, keys and values, all bytecode versions",
"The value/object/key order is only visible when the operands are of distinguishable kinds, and failing accesses are hardly tested.",
[B+"byteop24.py",B+"byteop26.py",B+"byteop37.py",B+"byteop312.py"],
[("LOAD_ATTR, STORE_ATTR, STORE_SUBSCR, IMPORT_*",B+"byteop24.py"),("IMPORT_NAME with level",B+"byteop26.py"),("LOAD_METHOD",B+"byteop37.py")])

prop("C23","globals, locals, eval and exec act on the interpreted program's namespaces",
"When the interpreted program calls globals or locals it gets its own frame's namespaces, never the interpreter's; eval and exec without explicit namespaces evaluate in the calling frame's namespaces, and with explicit ones in exactly those, returning the value eval computes. Wrong argument counts are rejected.",
["inputs","programs"],"all frames, all argument combinations, all call instructions",
"Default-namespace rules differ between eval and exec and by number of arguments; tests call each once.",
[B+"byteop.py",B+"byteop311.py"],
[("special handling of builtins in the call path",B+"byteop.py"),("the same for 3.11+",B+"byteop311.py")])

prop("C24","Compatibility builtins only fill gaps and behave as in the old version",
"Adapting builtins for an older bytecode version adds the names that version has and the host lacks, never replaces or removes one that is present, and is idempotent. The emulated functions return what the old version's functions returned: three-way comparison yields exactly -1, 0 or 1 consistently with the ordering, and calling by argument list passes exactly those arguments.",
["inputs","configurations","histories"],"all bytecode versions and orders of adaptation, all argument values",
"Tests check that one program runs under one adaptation; idempotence and ordering consistency are universally quantified.",
["xpython/stdlib/builtins.py"],
[("compatibility builtins","xpython/stdlib/builtins.py")])

prop("C25","Logging and instruction display never disturb the program",
"Rendering an instruction for logs, traces or error messages changes nothing in the interpreter state, for any state the interpreter can be in, including a failing instruction whose operands have already been consumed. Executing a program yields the same results whether instruction logging is on or off.",
["inputs","programs","configurations"],"all interpreter states at the time of display, all instructions and versions, all logging levels",
"Display runs after a failing instruction too, when operands are gone; a formatter that raises there replaces the program's exception by an internal one, which only shows for that instruction failing.",
["xpython/vm.py",B+"byteop.py",B+"byteop24.py",B+"byteop36.py"],
[("instruction formatting","xpython/vm.py"),("operand formatters",B+"byteop.py")])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,p["id"]
        f.write(json.dumps(p)+"\n")
print(len(P))
