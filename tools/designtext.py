"""what DESIGN.md says beyond statement, rule and assumptions: per property (reach and limits)"""
TEXT = {
"P01": "Reaches what tests cannot: an untraced field dies only if a collection happens while nothing else holds it. Enumerates kinds x reference fields from the record layouts of the debug information, so a new field is covered without editing the rule.",
"P02": "All heap stores of all native functions are enumerated; stores whose value cannot be a pointer, and stores to objects younger than the last possible collection, carry no obligation. The machine code of the JIT is included through its decoded templates.",
"P03": "Tables, enumerations and switches are read as data from the IR; operand packing is compared as linear forms of bit fields.",
"P04": "Every emitter is evaluated for all variants (operand sizes, displacement sizes, presence of optional parts); symbolic operands stay symbolic in the bytes.",
"P05": "Polynomials over the operands decide value equality for all integers at once, including the overflow side conditions.",
"P06": "Path facts for every division, remainder and unboxing read.",
"P07": "Use analysis is interprocedural; registration sites are all calls that make a function object from a native function.",
"P08": "Besides loads and stores, an address inside a record counts as read where it is carried on (merged, stored, returned or passed), so characters handed to the C library count. A need that only arises for an argument that is not nil is met by nil. Needs of helpers are propagated to native methods; receivers are discharged by the class the method is registered on.",
"P09": "Inequalities are discharged without solver: by branch facts, by loop induction (candidate invariants, fixpoint), by capacities known from allocations and by needs pushed to callers. Cost about two minutes.",
"P10": "Interior addresses are tracked per function and through parameters and results of helpers.",
"P11": "Currency of handles per growable kind; requirement of parameters propagated to callers.",
"P12": "Typestate of each new string; provenance of the target of every write.",
"P13": "Backwards provenance of every value-typed sink to a closed list of sources; parameters resolved through all callers. Constants that native methods registered as cmp return are integers.",
"P14": "All indirect calls through function objects (about 480, most from message sends); registers of the interpreter are identified by their index expression.",
"P15": "81 fallible calls are followed forward through copies, phis and the slots (locals, fields, globals) they are stored in; 141 status results are checked for use. Library functions that accept null are listed in the rule.",
"P16": "69 acquisitions are followed to their release or hand-over (a path ends well when the value is released, returned, stored where it lasts or given to a function whose summary keeps it), 61 releases are followed to the end of the function for later uses and for what is left in fields and globals; 21 uses of fields that a release leaves null are shown to be guarded and 5 overwriting stores to follow a release or a first use. Paths are pruned by the result of the acquiring call and by constant flags merged at phis.",
"P17": "the writer is interpreted abstractly for each of 7 kinds of constant, leaving a list of tokens (width and value, bytes and length, nested function, loop over a list); the reader is interpreted against that list: 135 tokens, 84 fields compared with what they were written from, 5 obligations on the header, 12 fields of a clone. A branch is decided from the kind of the value; where it is not about the value, both ways must have the same effect.",
"P18": "about 10,000 operands are examined: arithmetic, conversions to floating point and to narrower numbers, comparisons, indices, arguments of number type of own and library functions, formats, fields and results of number type. Each is followed back through merges and casts; a parameter, field, element, register or result declared to hold values ends the search with a violation (a helper's parameter only when some caller gives it a value). A shift right by one is the conversion; hashing, tag tests and comparing two values are free.",
"P19": "every store of an element and every copy, read and formatted text whose target is a local array (variable-length ones with the expression they were sized with), an array in a record or a block from malloc is an inequality over lengths: 22 elements, 35 blocks and 9 texts make about 180 inequalities. The longest text of a format follows from its conversions (20 digits for a long, 311 and the precision for a double, the length of a string argument); lengths measured with strlen are symbols, equal for the same string. What only depends on a parameter becomes an obligation of the callers, as the number of breaks of a loop does; a field that is only ever set to 0 and counted up is not negative. A list that called functions append to (the forward jumps of machine code, filled by the generator functions of the instruction table) is decided in two steps: every function that may be called appends at most one element on any path, and in the loop that calls them, where no round calls two, the room left after the elements of earlier rounds suffices, with the loop's own instruction counter as the bound on the rounds. For system calls that take the size of a buffer through a variable, the value last stored to it before the call is the size.",
"P20": "the front end's output before any optimisation keeps every local variable as a slot with loads and stores (about 7,000 slots and 32,000 reads in 870 functions). A forward analysis computes what is set on all paths to each point, per slot, per field of a record and per array; a load that is not covered, the load of the result slot at a return, and a pointer to an uncovered slot handed to a callee that reads through it are candidates. Callees of the repository are summarised by the fields they may read before they write them and by whether they ever write; libraries by a table. Calls that fill a record only when they succeed (stat and its kin, the address parsers) set it only on the edge where their result, if it is tested, says so, and never when it is dropped. A candidate is reported only when a path exists on which nothing was stored and whose branches agree with each other (equal conditions over unchanged variables, constants stored to flags, cases of a switch), so code that sets and reads under the same condition is not an alarm; loads that only keep the neighbours of a bit-field being stored are not reads.",
}
