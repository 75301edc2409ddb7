"""The properties, in one place: tools/gen.py writes properties.jsonl and MANIFEST.json from this."""
PROPS = [
 dict(id="P01", title="A collection keeps, moves and sizes every reachable object exactly",
  statement="Whenever the garbage collector runs, minor or major, every object that is reachable from the interpreter state, the stack or another live object survives with its contents, every reference field of every kind of object (strings, tuples, tables, flexible arrays, closures, protos, classes, sources, files, errors, lick trees, continuations, weak references) is traced and updated to the object's new place, in both collection modes and for all elements of its arrays. Copying and heap walking use the exact allocated size of each kind of object.",
  over=["programs", "histories"],
  **{"for": "every reference field of every heap record x both collector modes, every object kind's size, on every path of the marking, copying and sizing functions"},
  why="Tests allocate little and rarely collect with a particular field holding the only reference; a field missed in one mode shows only when that object moves or dies while reachable through that field alone.",
  files=["core/gc.c", "core/gc.h", "core/potion.h", "core/table.h"],
  mech=[("per-kind marking", "core/gc.c potion_mark_minor / potion_mark_major"), ("object size", "core/gc.c potion_type_size"), ("copy and forward", "core/gc.c potion_gc_copy"), ("stack scan", "core/gc.c potion_mark_stack")],
  technique="path-sensitive obligations over LLVM SSA: per kind and mode, every reference field of the record must be updated on every path of the marking function; symbolic size forms compared with the record layout",
  note="Sound for the fields and kinds enumerated from the debug-info record layouts; trusts the tag-to-record table and does not decide references kept in untyped foreign memory."),
 dict(id="P02", title="Every reference stored into an old object reaches the write barrier",
  statement="Whenever native code stores a reference into a field or element of a heap object that may already have been promoted, it reports that object to the write barrier before anything can trigger a collection and before returning to its caller, on every path; so a young object reachable only through an old one is never lost by a minor collection. This covers the compiler, the interpreter loop, tuples, tables, objects, classes, closures, files and the library modules; objects made since the last possible collection need no report.",
  over=["programs", "histories"],
  **{"for": "every store of a possibly-pointer value into a reference slot of a heap record, on every path to the next collection point or return"},
  why="A missing barrier shows only when the object is already old, the value is young and otherwise unreachable, and a minor collection happens before the next barrier on that object.",
  files=["core/gc.h", "core/gc.c", "core/table.c", "core/objmodel.c", "core/compile.c", "core/vm.c", "lib/aio.c", "lib/buffile.c"],
  mech=[("write barrier", "core/gc.h PN_TOUCH / core/gc.c potion_gc_update"), ("interpreter stores", "core/vm.c potion_vm SETLOCAL, SETUPVAL, PROTO"), ("element stores", "core/table.c"), ("object fields", "core/objmodel.c potion_obj_set")],
  technique="forward dataflow (fresh / touched / dirty objects) over LLVM SSA with function summaries; collection points from the call graph",
  note="Collection points over-approximated by the call graph with every indirect call; the interpreter state is a root (P01); boot-time code is exempt because all its objects are in one region."),
 dict(id="P03", title="Every opcode means the same operation in every table, and all are implemented",
  statement="The number of each virtual machine operation names the same operation everywhere it is used: in the list of opcodes, the table of opcode names used for listings, the interpreter's dispatch, the JIT compiler's switch over opcodes and the machine-code emitter table of the target. Every operation the compiler can emit, whether through its operator table, its macros or a later rewrite of an instruction, is implemented by both the interpreter and the JIT. An instruction's operands, negative jump distances included, survive packing, patching and unpacking unchanged in every reader, and a value that does not fit is refused rather than wrapped.",
  over=["programs"],
  **{"for": "every opcode x every table and switch indexed by it; every assembler call and instruction rewrite in the compiler; every operand read in both engines"},
  why="An opcode shifted in one table or lacking in one engine is invisible to tests that never use that opcode with that engine, and listings are not tested at all.",
  files=["core/opcodes.h", "core/asm.c", "core/compile.c", "core/vm.c", "core/vm-x86.c"],
  mech=[("opcode list", "core/opcodes.h, core/potion.h PN_OP"), ("names", "core/compile.c potion_ops"), ("interpreter dispatch", "core/vm.c potion_vm jmptbl / switch"), ("JIT switch and emitters", "core/vm.c potion_jit_proto, core/vm-x86.c potion_target_x86")],
  technique="table extraction from LLVM IR (initialisers, switch cases, label arrays, emitter call slots) and cross-comparison; constant folding of operand packing",
  note="Handlers are identified by their label or emitter; that a handler's body does the named operation is not decided here. MACHINE: x86-64 target only (the PPC and ARM files are not compiled)."),
 dict(id="P04", title="Generated machine code is well formed and keeps to its own frame",
  statement="The machine code the JIT generates, for every operation in every variant of its register numbers and for the function prologue, decodes into complete instructions; every jump lands on an instruction of that code, or is a distance that is recorded and later set (forward) or computed from the recorded offset (backward) of the operation it names. The code writes only to the slots of its own frame and its outgoing arguments, which the prologue has reserved, and preserves its caller's registers; parameters, self, the arguments beyond the sixth and captured values are fetched from and passed in the places the calling convention and the closure layout put them. Every native function it calls receives the interpreter and each argument the function reads, and no address of an object the collector may move is embedded in the code.",
  over=["programs", "inputs"],
  **{"for": "every path of every emitter function reachable from the opcode dispatch and the prologue hooks, symbolically in the register numbers; calls with 1 to 39 arguments and 18 captured values"},
  why="Encodings change with register numbers, argument counts, upvalue counts and distances; tests compile small functions that use few of each.",
  files=["core/vm-x86.c", "core/vm.c", "core/asm.c"],
  mech=[("emitters", "core/vm-x86.c potion_x86_*"), ("driver, fix-ups and frame size", "core/vm.c potion_jit_proto"), ("argument passing", "core/vm-x86.c potion_x86_c_arg")],
  technique="abstract interpretation of the emitter functions' LLVM IR into code templates with symbolic register numbers, decoded and analysed by dataflow; linear facts on the driver",
  note="x86-64 only. What an operation computes is decided by P05 for the operators. Trusts that a CALL's last register is not before its first."),
 dict(id="P05", title="Operators compute the same in interpreter, compiled code and number methods",
  statement="For the operators + - * / % << >> ~ and < <= > >=, the interpreter and the compiled machine code compute on two integers exactly the result of that operator, as a tagged integer or boolean, and take that inline path only when both operands have been tested to be integers; + - * switch to floating point instead of wrapping when the result does not fit, and a zero divisor goes to the method. In every other case both send the operator's own message with the operands in order (comparisons compare as floating-point numbers the same way). The number, integer and double methods registered for those operators compute the same results on integers and apply the same operator to floating-point operands.",
  over=["programs", "inputs"],
  **{"for": "every operator x every engine x every path of its implementation, for all operand values"},
  why="Tests sample a few small operands; wrapped overflow, a wrong sign or width, a missing type test or a swapped operand in one engine shows only for particular values, types and register numbers.",
  files=["core/vm.c", "core/vm-x86.c", "core/number.c", "core/objmodel.c", "core/internal.c"],
  mech=[("interpreter arithmetic", "core/vm.c PN_VM_MATH3, PN_VM_DIV2, PN_VM_NUMCMP"), ("machine code", "core/vm-x86.c X86_MATH, X86_NUMCMP"), ("methods", "core/number.c"), ("messages", "core/objmodel.c potion_obj_add ...")],
  technique="dataflow to polynomial normal forms over LLVM SSA and over the decoded machine-code templates of every emitter variant, with backward path facts for the type and overflow tests",
  note="** (pow), == and != are not covered; floating-point rounding itself is not modelled, only which operation is applied to which operands."),
 dict(id="P06", title="No division by zero, and no unchecked value read as a floating-point number",
  statement="An integer division or remainder carried out by the interpreter, by compiled machine code or inside any native function has a divisor that every path to it has excluded from being zero, so no operands can kill the process with a division fault. The number inside a boxed floating-point value is read only where every path has established that the value is one, whatever a program passes.",
  over=["programs", "inputs"],
  **{"for": "every integer division/remainder with a non-constant divisor and every read of a boxed number, on every path"},
  why="A missing check is invisible until some program passes exactly a zero divisor or an object of another kind to that one operation.",
  files=["core/number.c", "core/vm.c", "core/vm-x86.c"],
  mech=[("integer methods", "core/number.c potion_int_div, potion_num_rem"), ("interpreter", "core/vm.c PN_VM_DIV2"), ("machine code", "core/vm-x86.c potion_x86_div, potion_x86_rem"), ("number reads", "core/potion.h PN_DBL")],
  technique="backward path-fact analysis over LLVM SSA with branch facts, and a flag dataflow over the decoded machine-code templates",
  note="Fresh boxed numbers made in the same function are exempt; type tests are recognised through the object's type field or the type functions."),
 dict(id="P07", title="Native methods read only the arguments their signature names",
  statement="Every native function a program can call, as a method, constructor or call handler, is registered with a well-formed signature that names every argument the function reads, directly or through the functions it passes its arguments on to; so native code never reads an argument its caller was not obliged to supply. No class is given two native methods of the same name.",
  over=["programs"],
  **{"for": "every registration of a native function x every parameter the function reads"},
  why="A call that passes all the arguments works whatever the signature says; only a call with fewer arguments reads leftover registers or stack.",
  files=["core/internal.c", "core/objmodel.c", "core/number.c", "core/string.c", "core/table.c", "core/file.c", "core/lick.c", "lib/aio.c", "lib/buffile.c"],
  mech=[("registration", "core/internal.c potion_method, potion_define_global; PN_FUNC"), ("signature grammar", "core/syntax.y potion_sig"), ("checks at calls", "core/vm.c potion_sig_check")],
  technique="interprocedural use analysis of parameters over LLVM SSA, compared with the signature string at every registration site",
  note="That the call protocol of each engine enforces the signature is not decided here. Closures whose signature comes from a program are out of scope."),
 dict(id="P08", title="Native methods read an object as of some kind only once known to be it",
  statement="A native method reads or writes one of its arguments, or its receiver, as an object of some kind (string, byte string, table, tuple, closure, proto, class, source, continuation, extension data) only where every path to that access has established that the object is of that kind; a receiver counts as established when the method is registered on that kind's class. So no program can make native code misread an object by passing one of another kind.",
  over=["programs", "inputs"],
  **{"for": "every access to a field of a heap record through an argument or receiver of every native method, directly or in a function it passes it to, on every path"},
  why="Tests pass arguments of the intended kind; a missing check reads arbitrary memory only when a program passes another kind to that one argument.",
  files=["core/number.c", "core/string.c", "core/table.c", "core/objmodel.c", "core/load.c", "core/file.c", "core/callcc.c", "lib/aio.c", "lib/buffile.c", "lib/database.c"],
  mech=[("argument checks", "core/potion.h PN_CHECK_STR, PN_CHECK_TUPLE, PN_CHECK_TYPE ..."), ("method registration", "core/objmodel.c potion_method")],
  technique="interprocedural needs analysis over LLVM SSA: record accesses through parameters, discharged by backward path facts on the object's type, propagated to callers and to registration sites",
  note="Elements read out of containers and results of messages are not covered (only arguments and receivers); methods reach an object only through its own class or a derived one."),
 dict(id="P09", title="Lists, strings and byte strings are accessed within their bounds",
  statement="Whatever index, range or length a program passes, and whatever a block called meanwhile does to the object, native code reads an element of a list, string or byte string only at a position from zero to below its length (a string's closing zero byte included) and writes one only at a position from zero to below its capacity, and every block of elements it copies lies within. Every length and capacity it stores in such an object stays within the memory allocated for it, and no size it computes for a new one is negative.",
  over=["programs", "inputs"],
  **{"for": "every element access, block copy, stored length, stored capacity and computed size in the native functions of the library, on every path"},
  why="An off-by-one is visible only for an index at the edge, an empty or exactly full object, or a block that shrinks the list it is called for, and mostly corrupts memory silently.",
  files=["core/table.c", "core/string.c", "core/objmodel.c", "core/file.c", "core/load.c", "core/ast.c", "lib/aio.c"],
  mech=[("list methods", "core/table.c potion_tuple_*"), ("string methods", "core/string.c potion_str_*, potion_utf8char_offset"), ("growable byte strings", "core/string.c potion_bytes_append"), ("signatures", "core/objmodel.c potion_sig_*")],
  technique="linear inequalities over LLVM SSA, discharged by backward path facts, inductive loop invariants found by fixpoint, and interprocedural needs at call sites",
  note="Covers lists and (byte) strings reached through their own fields, not pointers walked through them. The compiler, parser, interpreter and collector are out of scope; arithmetic is assumed not to wrap."),
 dict(id="P10", title="Addresses inside objects are not kept across a collection",
  statement="Native code never uses the address of the characters of a string or byte string, or the address of an element of an object, once a call that may collect has been made since it obtained that address; it obtains the address again from the object. So whatever moment a collection happens at, no read, write or copy goes to where an object was before it moved.",
  over=["programs", "schedules"],
  **{"for": "every address of string characters or of array elements held by native code x every later call that may collect x every later use, on every path and through helper functions"},
  why="The stale address works unless a collection happens in exactly that call and moves exactly that object; tests do not place collections.",
  files=["core/string.c", "core/table.c", "core/compile.c", "core/internal.c", "core/objmodel.c", "core/load.c", "core/potion.c", "core/khash.h"],
  mech=[("strings and byte strings", "core/potion.h PN_STR_PTR; core/string.c"), ("collection points", "core/gc.c potion_gc_alloc, potion_gc_realloc"), ("hash tables", "core/khash.h")],
  technique="interprocedural forward dataflow of interior addresses over LLVM SSA against the may-collect call graph",
  note="The collector itself, the interpreter loop's own argument arrays and the line editor (which cannot collect) are out of scope."),
 dict(id="P11", title="Objects that grew are read and written through their replacement",
  statement="Lists, tables, byte strings, class tables and instruction buffers grow by being replaced with a bigger copy, leaving a record that names the copy. Native code reads or writes such an object only through a handle that follows the replacement or is newer than every call that may have enlarged the object, so a program that still holds the old handle sees the grown object.",
  over=["programs", "histories"],
  **{"for": "every access to a growable object in every native function x every earlier call that may enlarge an object of that kind"},
  why="The old record still looks plausible and is renewed by the next collection; the error shows only if the object grew, the old handle is used, and no collection happened in between.",
  files=["core/table.c", "core/string.c", "core/objmodel.c", "core/khash.h", "core/compile.c", "core/internal.c", "core/vm.c", "core/asm.c", "core/vm-x86.c"],
  mech=[("replacement", "core/gc.c potion_gc_realloc; core/potion.h PN_REALLOC, potion_fwd, PN_QUICK_FWD"), ("lists", "core/table.c PN_GET_TUPLE"), ("instruction buffers", "core/asm.c potion_asm_*")],
  technique="interprocedural forward dataflow of handle currency per growable kind over LLVM SSA, with owner fields and requirements propagated to callers",
  note="A growing call makes handles of that kind out of date whichever object it enlarged, so re-reading through the replacement after it is required."),
 dict(id="P12", title="Strings with the same characters are one object that never changes",
  statement="Every new string is looked up by all of its characters, and entered into the table of strings if it is not found there, before any other code gets hold of it; so two strings with equal characters are the same object, which is what equality and table lookup compare. Nothing ever writes into the characters of a string once it has been entered: native code writes characters only into byte strings, or into a new string before it is entered.",
  over=["programs", "histories"],
  **{"for": "every allocation of a string, every lookup and entry, and every store, copy or library call that writes characters, in native code"},
  why="Two equal strings that are different objects compare unequal only if the program builds the same text twice by the affected route; a write into a shared string changes every other use of that text.",
  files=["core/string.c", "core/table.c", "core/table.h", "core/load.c", "core/gc.c", "lib/buffile.c", "core/objmodel.c"],
  mech=[("creation", "core/string.c potion_str, potion_str2, potion_strcat, potion_str_format, potion_byte_str"), ("table of strings", "core/table.c potion_add_str, potion_lookup_str; core/table.h kh_get_str"), ("collector", "core/gc.c")],
  technique="typestate analysis of new strings (allocated, filled, looked up, entered, handed out) and provenance analysis of every write to characters, over LLVM SSA",
  note="The hash function and the probing of the hash table are covered only as far as: nothing but the complete probe answers not found. Strings that contain a zero byte are a recorded finding."),
 dict(id="P13", title="What native code hands to programs is a value",
  statement="Whatever a native method returns, stores into a field, list, table or object that holds values, or passes to a block it calls, is a value: nil, true, false, an integer in its tagged form, or an object. A plain C number, length, truth value, C pointer or address inside an object is never handed to a program as if it were a value. What a method that compares (cmp) answers is never nil, true or false.",
  over=["programs", "inputs"],
  **{"for": "every result of a native method, every stored element or field, every argument of a call to a block, on every path and through helper functions"},
  why="A raw word happens to print as some number or nil in the common case; it is taken for an object, or the wrong number, only for certain contents, or only once the collector scans it.",
  files=["core/number.c", "core/string.c", "core/table.c", "core/objmodel.c", "core/load.c", "core/file.c", "core/callcc.c", "core/internal.c", "lib/aio.c", "lib/buffile.c", "lib/database.c"],
  mech=[("tagged forms", "core/potion.h PN_NUM, PN_BOOL, PN_NIL"), ("native methods", "core/*.c, lib/*.c"), ("lists and tables", "core/table.c PN_TUPLE_AT, PN_TUPLE_SET")],
  technique="interprocedural provenance (taint) analysis of value-typed sinks over LLVM SSA, to a closed list of value sources",
  note="Which value it is, is not decided here. A reference around a C address list handed to one callback is a recorded finding."),
 dict(id="P14", title="Native code calls functions as themselves, with what they require",
  statement="Whenever native code calls a function object, it has established on every path that it is one, and hands it the interpreter state and that same function object; where it sends a message, the method goes to the very object the message was looked up for. A message that native code sends by name passes at least the arguments every native method of that name requires. A function object whose code runs a function of the program, or returns a kept value, has room for that and carries it before anything else gets hold of it; compiled code is entered only with a function object that carries the function it was compiled from.",
  over=["programs", "inputs"],
  **{"for": "every call through a function object in native code, every message native code sends x every native method of that name, every creation of a function object"},
  why="Most blocks ignore the function object they are called with, so handing over another one shows only for blocks that use captured variables or run in the interpreter; a missing argument is leftover register content.",
  files=["core/table.c", "core/internal.c", "core/vm.c", "core/vm-x86.c", "core/compile.c", "core/objmodel.c", "core/number.c", "core/string.c", "lib/aio.c", "lib/database.c"],
  mech=[("sending", "core/potion.h potion_send"), ("calling blocks", "core/table.c, core/number.c, core/internal.c potion_call"), ("creation", "core/objmodel.c potion_closure_new, potion_def_method; core/vm-x86.c potion_f_protos")],
  technique="typestate (is a function) by backward path facts, argument identity and interprocedural requirements over LLVM SSA at every indirect call; arity comparison of sends with registered signatures",
  note="Machine code emitted by the JIT is covered by P04, not here. Printing a list that holds a file passes no argument to the print of files: recorded findings."),
 dict(id="P15", title="Failures of system and library calls are noticed before results are used",
  statement="The result of every library call that can fail by answering a null pointer, a negative descriptor, an invalid mapping or an unset text (opening, allocating, mapping, duplicating, loading a library, looking up a symbol, an environment variable or a character) is used, kept for later use, or passed on to code that uses it only on paths where the failure has been excluded. A function that hands such a result to its callers unchecked obliges them in the same way. The status of event loop and database calls, of reading, writing and seeking in streams, of removing files, and of closing a stream opened for writing is not dropped.",
  over=["inputs", "histories"],
  **{"for": "every call in the program of a library function that reports failure by its result, every path from it"},
  why="Tests run with enough memory, existing files, permissions and disk space; each call fails only under its own condition, which no test sets up.",
  files=["core/load.c", "core/file.c", "core/potion.c", "core/vm.c", "core/gc.c", "core/contrib.c", "core/syntax.y", "lib/buffile.c", "lib/aio.c", "lib/database.c", "lib/readline/linenoise.c"],
  mech=[("loading code and libraries", "core/load.c potion_load_code, potion_load_dylib"), ("streams", "lib/buffile.c"), ("memory", "core/gc.c pngc_page_new, core/contrib.c potion_mmap"), ("event loop", "lib/aio.c")],
  technique="typestate analysis forward from every fallible call (result, copies and slots it is stored in) until the failure is excluded, with interprocedural requirement and source summaries over LLVM SSA",
  note="That the reaction to a failure is the right one (the message, the error value) is not decided, only that the failure is told apart before the result is used."),
dict(id="P16", title="What is acquired from the system is released exactly once and not used after",
  statement="Memory, streams, descriptors, libraries, mappings and database results that a call acquires are, on every path on which the call succeeded, released, returned, stored where they outlive the function, or handed to code that does one of these. Once released, a resource is not used, released again, returned or stored, and the field or global variable that held it is overwritten or marked empty before the function returns. A field that such a release leaves empty is tested before it is handed to the library again, and a field whose content is released elsewhere is not overwritten while it may still hold something.",
  over=["inputs", "histories"],
  **{"for": "every call in the program that acquires or releases memory, a stream, a descriptor, a library, a mapping or a database result, and every path from it"},
  why="A leak, a second release or a use after release passes unnoticed in short test runs; most need a failing call or an object used again after it was closed.",
  files=["core/load.c", "core/file.c", "core/potion.c", "core/asm.c", "core/vm.c", "core/gc.c", "core/contrib.c", "core/syntax.y", "lib/buffile.c", "lib/aio.c", "lib/database.c", "lib/readline/linenoise.c"],
  mech=[("files and streams", "core/file.c, lib/buffile.c"), ("loading code and libraries", "core/load.c potion_find_file, potion_load_code, potion_load_dylib"), ("database results", "lib/database.c"), ("line editing", "lib/readline/linenoise.c")],
  technique="ownership and typestate analysis forward from every acquiring and every releasing call over LLVM SSA, with interprocedural release, keep and source summaries and path conditions on results and constant flags",
  note="Objects of the collected heap are not resources here, and what the collector should finalise when an object dies is not decided."),
dict(id="P17", title="Saved byte code and clones of functions carry the whole function",
  statement="A function saved as byte code and read back has the name, source, signature, register count, values, paths, locals, captured names, nested functions and instructions it was saved with, whatever their number and length, for constants that are strings of any content, floating-point numbers (exactly), integers, nil and booleans. Every step of the reader takes, with the same width and count, what the writer left at that place, the header that identifies byte code is read as it is written, and the sizes computed from lists are computed as the compiler does. A clone of a function gets every such part from the function it is made from, and a copy of its instructions of the same length.",
  over=["inputs"],
  **{"for": "every function, with any number of constants and names of any length, saved and read back, or cloned"},
  why="Tests run few programs from saved byte code, with few short names and small constants; a width, order or count that only differs for large or unusual ones stays unseen.",
  files=["core/compile.c"],
  mech=[("saving", "core/compile.c potion_proto_dumpbc, potion_source_dumpbc"), ("reading back", "core/compile.c potion_proto_load, potion_source_load"), ("cloning", "core/compile.c potion_proto_clone")],
  technique="abstract interpretation of writer and reader side by side over symbolic values, lengths and positions, with one symbolic pass per loop, for each kind of constant",
  note="Syntax trees and debugging records are not saved by design; constants of other kinds are not decided."),
dict(id="P18", title="Numbers that programs pass are converted before C computes with them",
  statement="Wherever native code or the interpreter takes a value (an argument, a register, what an object or list holds, what a method or block returned) as a number of C, that is computes with it, uses it as an index, count or size, compares it with such a number, stores or returns it as one, prints it as one or hands it to a C library function as one, it has converted it from its tagged form, exactly once. No value that is already tagged is tagged again.",
  over=["inputs", "programs"],
  **{"for": "every use of a value as a number of C in every native function and the interpreter"},
  why="A tagged integer is a plausible number of C (twice the number and one), so a forgotten or doubled conversion compiles without a warning and shows only where the exact number matters: a count, a length, a time-out or an option few tests set.",
  files=["core/file.c", "core/string.c", "core/table.c", "core/number.c", "core/objmodel.c", "core/vm.c", "core/internal.c", "lib/aio.c", "lib/buffile.c"],
  mech=[("conversion", "core/potion.h PN_INT, PN_NUM"), ("event loop options", "lib/aio.c"), ("files", "core/file.c, lib/buffile.c"), ("lists and strings", "core/table.c, core/string.c")],
  technique="flow of values, by declared types and sources, into every operation of C on numbers in the compiler's intermediate representation",
  note="That the value converted is an integer at all, rather than an object, is not decided; the JIT's machine code is covered by P05."),
dict(id="P19", title="What the C code writes to its own buffers stays within them",
  statement="Every element and block of memory that the compiler, interpreter, code generators, number and string conversion, file, network, library loading and command line code writes to a local array, to an array of fixed size within one of its records, or to memory it got from malloc, calloc or realloc lies within it, from its first byte to its last. A string copied or text formatted into one fits in its longest possible form, with the closing zero byte; a block copied or made a string out of one ends within it. The code generator's list of jumps has room for one jump of every instruction, and a system call that is told the size of a buffer by a variable finds it set to no more than the buffer has.",
  over=["inputs"],
  **{"for": "every length of names, paths, lines, signatures and programs, every number and every nesting that decides where and how much is written"},
  why="Buffers are sized for what is usual (a number's digits, a path with its extension, the jumps of a loop); a size that is short by one or a missing limit shows only for the longest names, largest numbers or biggest functions, which no test has.",
  files=["core/compile.c", "core/load.c", "core/potion.c", "core/number.c", "core/vm.c", "core/objmodel.c", "core/file.c", "lib/aio.c"],
  mech=[("jump lists of loops", "core/compile.c struct PNLoop"), ("paths and extensions", "core/load.c potion_find_file, find_extension"), ("digits of numbers", "core/number.c"), ("names of meta classes and attributes", "core/objmodel.c, core/compile.c")],
  technique="symbolic interval and linear-inequality analysis of sizes and offsets over LLVM SSA, with loop induction and obligations passed to callers",
  note="Buffers of the collected heap are covered by P09; the registers of the interpreter, the collector, the line editor and elements read from arrays are not decided."),
dict(id="P20", title="The C code reads no local variable that was not set",
  statement="On every path through every function of the compiler, parser, interpreter, code generator, collector, types and libraries, each local variable, each field of a local record and each local array has been given a value before it is read, and a function that has a result returns one. A record or variable whose address is handed to a function that reads it (a system or library call told a size, an address or options, or a function of the program) has been set before, as a whole where the callee reads the whole.",
  over=["inputs"],
  **{"for": "every path: every type of argument, kind of syntax, error and early exit that decides which assignments are passed"},
  why="A variable set on most paths holds what an earlier call left on the stack on the others; it often happens to be zero, so tests pass and the failure shows with another history of calls or another compiler.",
  files=["core/compile.c", "core/vm.c", "core/vm-x86.c", "core/gc.c", "core/table.c", "core/string.c", "core/number.c", "core/load.c", "core/file.c", "core/objmodel.c", "core/potion.c", "lib/aio.c", "lib/buffile.c"],
  mech=[("jump counters of loops and of machine code", "core/compile.c struct PNLoop, core/vm.c potion_jit_proto"), ("state kept across elements", "core/compile.c potion_sig_string, potion_sig_compile"), ("records for system calls", "lib/aio.c, core/file.c, core/load.c")],
  technique="forward must-be-assigned dataflow per variable, field and array over the front end's IR, with read-before-write summaries of callees and contradictory branches pruned",
  note="Memory of the collected heap and of blocks from malloc is not covered; a function given an address is assumed to set it unless it reads it first or never stores through it."),
]
NA = [
dict(id="P90", title="Arithmetic and number formatting give mathematically correct results",
  statement="Every operation on numbers gives the exact result or, for doubles, the correctly rounded one, and every number prints as text that reads back as the same number.",
  over=["inputs"], **{"for": "every pair of numbers and every operation"},
  why="Results depend on rounding and overflow at particular values.",
  files=["core/number.c"], mech=[("number operations", "core/number.c")],
  reason="Correctness is a relation between run-time values (rounding, overflow, decimal expansion); no dataflow or type argument over the source bounds it, deciding it needs a solver or execution."),
dict(id="P91", title="Source text and its printed parse tree denote the same program",
  statement="Parsing the text a program prints for its syntax tree yields the same tree again, for every program.",
  over=["inputs"], **{"for": "every program text"},
  why="The grammar has unboundedly many inputs.",
  files=["core/syntax.y", "core/syntax-p5.y", "core/ast.c"], mech=[("grammar", "core/syntax.y"), ("printing", "core/ast.c potion_source_string")],
  reason="It relates an unbounded grammar with ordered choice to a printer; equivalence of the two is not decidable by analysing the source, and precedence is not represented in the tree."),
dict(id="P92", title="Interpreted and compiled execution compute the same values",
  statement="Every program run by the interpreter and by the native code it is compiled to prints the same output.",
  over=["inputs", "histories"], **{"for": "every program"},
  why="Two implementations of each instruction are sampled by the tests on a few operands each.",
  files=["core/vm.c", "core/vm-x86.c"], mech=[("interpreter", "core/vm.c potion_vm"), ("code generator", "core/vm-x86.c")],
  reason="Full equivalence is a relation on run-time values of two implementations; the structural part that static analysis can decide (what every code template reads, writes, guards, calls and where it jumps) is claimed as separate properties, the rest is known not to hold (comparison results, missing operators, defaults that are not integers)."),
dict(id="P93", title="Event loop callbacks run once each, in the order of their events",
  statement="Each request to the event loop leads to exactly one call of its block, after the request completed and in completion order.",
  over=["schedules", "histories"], **{"for": "every sequence of event loop operations"},
  why="Order and timing depend on the kernel and the network.",
  files=["lib/aio.c"], mech=[("event loop binding", "lib/aio.c")],
  reason="The order is decided by the external event loop library and the kernel at run time; its source is not part of the repository's program, so no static argument over this code bounds it."),
dict(id="P94", title="A continuation resumes with the exact stack it was captured with",
  statement="Calling a captured continuation any number of times resumes its capture point with the same locals, caller and collector view as when it was captured.",
  over=["histories"], **{"for": "every capture and resumption"},
  why="The stack copy depends on frame layout and on what the collector moved in between.",
  files=["core/callcc.c"], mech=[("continuations", "core/callcc.c")],
  reason="The machine stack is copied by inline assembly against frame layouts fixed only by the compiler's back end; source and IR level analyses do not see these frames."),
dict(id="P95", title="Hash tables find every stored key, whatever the sequence of operations",
  statement="After any sequence of insertions and deletions a table answers each key with the value last stored for it and no other key.",
  over=["inputs", "histories"], **{"for": "every sequence of table operations"},
  why="Collisions, rehashing and tombstones appear only in particular sequences.",
  files=["core/table.c", "core/khash.h"], mech=[("hash table", "core/khash.h")],
  reason="It is a functional invariant of probing over run-time hash values and bucket flags (quantified over the array's content); shape and value invariants of this kind are out of reach of dataflow analysis without a solver. Bounds, barriers and forwarding in the same code are claimed elsewhere."),
]
