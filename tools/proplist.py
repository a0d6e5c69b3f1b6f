RT = "runtime monitoring: "

prop("C01", "Programs evaluate to their meaning on every back end and opt level",
     "Every program the compiler accepts and whose evaluation stays within the defined operations prints exactly what the language's evaluation rules say: integer (wrapping for unsigned), IEEE float, bit and comparison operators at every width, numeric conversions, strict left-to-right evaluation, lexical scoping and closures, local and mutual recursion, let/let*/begin/if/cond/and/or/while/return, `?` and `!`, generic and transparent functions. The output is the same with the chibi back end, the LLVM back end, and with optimisation on or off, and such a program is never rejected.",
     ["programs", "configurations", "inputs"],
     "all well-typed programs without undefined operations, on both back ends and both optimisation settings",
     "the language tests fix a few dozen programs; miscompilations depend on combinations of types, widths, register pressure, nesting and back end that no fixed list reaches",
     ["llrl0/src/lowering/translator.rs", "llrl0/src/lowering/normalizer.rs", "llrl0/src/lowering/ir/rt.rs",
      "llrl0/src/lowering/ir/rewriter.rs", "llrl0/src/lowering/branch_expander.rs", "llrl0/src/backend/chibi/codegen.rs",
      "llrl0/src/backend/llvm/codegen.rs", "std/boot", "std/integer.llrl", "std/float.llrl", "std/bits.llrl", "std/conv.llrl"],
     [("chibi code generation", "llrl0/src/backend/chibi/codegen.rs FunctionCodegen::eval*"),
      ("LLVM code generation", "llrl0/src/backend/llvm/codegen.rs"),
      ("inlining, closure conversion, instantiation", "llrl0/src/lowering/normalizer.rs")],
     RT + "generated programs executed on every configuration, output checked online against a reference interpreter",
     "generated programs cover the constructs listed in the evidence; behaviour outside the generator's grammar is not observed; the reference interpretation (lib/proggen.py) is trusted",
     ["stdout and exit status of the compiled executables"])

prop("C02", "Values keep their contents and `match` takes the first matching clause",
     "A value of any data type (value or boxed, enum, struct, sum, generic, recursive, tuple, box, function-carrying) read back after being constructed, passed, returned, stored in a closure, reference or other data, yields exactly the fields it was built from. `match` evaluates its target once, selects the first clause whose pattern matches, binds each pattern variable to the corresponding part and evaluates only that clause's body, on every back end.",
     ["programs", "inputs", "configurations"],
     "all data declarations, values and clause lists, on both back ends and both optimisation settings",
     "the tests use a handful of hand-written types; layout and decision-tree errors depend on the combination of field sizes, niches, constructor counts and pattern nesting",
     ["llrl0/src/lowering/data_expander.rs", "llrl0/src/lowering/branch_expander.rs", "llrl0/src/backend/native/mem_layout.rs",
      "llrl0/src/backend/chibi/codegen.rs", "llrl0/src/backend/chibi/codegen/stack_inst.rs", "llrl0/src/backend/llvm/codegen.rs"],
     [("data representation", "llrl0/src/lowering/data_expander.rs"), ("decision trees", "llrl0/src/lowering/branch_expander.rs MatchExpander"),
      ("register/stack passing of structs", "llrl0/src/backend/native/mem_layout.rs, chibi/codegen/reg_assign.rs")],
     RT + "generated data types, values and matches executed on every configuration against a reference interpreter",
     "generated declarations and patterns as listed in the evidence; the reference interpretation is trusted",
     ["stdout and exit status of the compiled executables"])

prop("C03", "Exhaustiveness and redundancy verdicts of `match` are exact",
     "A `match` over a type that has values is rejected as non-exhaustive exactly when some value of the target type matches no clause (a match without clauses counts as non-exhaustive), and rejected as having a useless clause exactly when some clause can never be selected. No accepted match falls through at run time: the first clause matching the value runs, and an uncovered pattern named in the report really is uncovered.",
     ["programs", "inputs"],
     "all finite clause lists over all target types (data, tuples, boxes, booleans, numbers, characters, strings)",
     "the unit tests check a few small matrices; the verdict quantifies over all values and all clause lists",
     ["llrl0/src/pattern_matching.rs", "llrl0/src/pattern_matching", "llrl0/src/module/sema/validator.rs", "llrl1/pattern-checker.llrl"],
     [("pattern matrix usefulness", "llrl0/src/pattern_matching/*.rs")],
     RT + "generated clause lists given to the real compiler, its verdict checked against brute-force enumeration of values",
     "types are cut to finite value sets that distinguish every literal used; the enumeration oracle is trusted",
     ["compiler diagnostics and exit status"])

prop("C04", "Type checking accepts exactly the well-typed programs",
     "A program whose expressions can be given types consistent with the declared signatures, with let-bound local functions generalised, is accepted and each inferred type is the most general one; a program with a type mismatch, wrong arity, infinite type, unsatisfied or over-general signature, or ambiguous unresolvable type is rejected with an error located in that program.",
     ["programs"],
     "all programs of the typed core language, well-typed and ill-typed",
     "the tests list accept/reject examples; soundness and completeness quantify over all programs",
     ["llrl0/src/unification.rs", "llrl0/src/unification", "llrl0/src/module/sema/type_inference.rs"],
     [("inference and unification", "llrl0/src/unification/, llrl0/src/module/sema/")],
     RT + "generated typed programs and type-breaking mutations of them, verdict of the real compiler checked against an independent type checker",
     "the independent checker covers the generated core (functions, data, literals, local functions, signatures); it is trusted",
     ["compiler diagnostics and exit status"])

prop("C05", "Class instances are resolved coherently and completely",
     "A class method call runs the method body of the one instance whose head matches the argument types once its own constraints are satisfied (searching through superclass and instance constraints to any depth), or the class's default body if the instance omits it; if no instance applies, or two apply equally, or an instance overlaps another, compilation is rejected. The choice does not depend on declaration order, module placement or the order constraints are listed.",
     ["programs", "configurations"],
     "all sets of class and instance declarations and all call types",
     "tests contain a few class hierarchies; the guarantee is over every set of instances and declaration order",
     ["llrl0/src/unification", "llrl0/src/module/sema", "llrl0/src/lowering/translator.rs"],
     [("instance search", "llrl0/src/unification"), ("dictionary lowering", "llrl0/src/lowering/translator.rs")],
     RT + "generated class/instance universes run for real, the chosen instance observed at run time and checked against a reference resolver",
     "generated universes are finite and non-overlapping unless the test is for overlap rejection",
     ["stdout; compiler diagnostics"])

prop("C06", "C functions are called and data laid out per the platform C ABI",
     "A C function imported into llrl receives exactly the argument values written, and llrl receives exactly its result, for every signature over integers, floats, pointers and value-data structures (passed in registers or memory) on the chibi back end, and on the LLVM back end for scalars, arguments of structures with at most one field per eightbyte that fit the remaining registers, and returned structures (other structure arguments there are a documented TODO and recorded as a finding); on both back ends the size and alignment llrl reports for such types equal the C compiler's, and values in memory are interpreted identically by both sides.",
     ["programs", "configurations", "inputs"],
     "all C-compatible signatures and struct shapes, on both back ends",
     "the tests call a handful of libc functions; classification depends on the field mix and on how many registers earlier arguments used",
     ["llrl0/src/backend/chibi/codegen.rs", "llrl0/src/backend/chibi/codegen/reg_assign.rs", "llrl0/src/backend/chibi/codegen/call_frame.rs",
      "llrl0/src/backend/native/mem_layout.rs", "llrl0/src/backend/native/calling.rs", "llrl0/src/backend/llvm/codegen.rs"],
     [("System V classification", "llrl0/src/backend/native/mem_layout.rs Layout, Eightbyte"), ("C calls", "llrl0/src/backend/chibi/codegen.rs eval_c_call; llrl0/src/backend/llvm/codegen.rs")],
     RT + "random signatures; a clang-compiled peer logs every byte it receives and returns known bytes, the log is checked offline",
     "clang's implementation of the ABI is the oracle; signatures up to the sizes in the evidence",
     ["the C peer's log, the llrl program's output"])

prop("C07", "References, closures and heap values stay valid while they are reachable",
     "Whatever a program can still reach keeps its contents: a reference, closure, array or boxed value that is returned, stored in another heap value, captured or used in a later loop iteration is never overwritten by later stack frames, allocations or garbage collections, and two allocations evaluated separately are always distinct objects.",
     ["programs", "histories", "configurations"],
     "all programs that create, leak, store, alias and mutate references and closures, under any amount of garbage collection, on both back ends and optimisation settings",
     "escape analysis and collection only go wrong for particular flows and allocation histories; tests exercise a few straight-line uses",
     ["llrl0/src/lowering/heap2stack.rs", "llrl0/src/lowering/ir/location.rs", "llrl0/src/backend/chibi/codegen.rs", "rt/rt.c", "std/ref.llrl"],
     [("stack promotion", "llrl0/src/lowering/heap2stack.rs"), ("allocation", "llrl0/src/backend/*/codegen* Alloc, GC_malloc")],
     RT + "generated mutation/aliasing histories under forced collections, with unreachable objects and dead stack overwritten and a guarded zone behind every object, every value looked at checked against an interpretation",
     "object graphs and histories of the generated sizes; the model is trusted",
     ["stdout of the compiled executables"])

prop("C08", "Reading source text: every token means what it says, everywhere",
     "Parsing any well-formed source text yields the S-expressions it denotes (decimal integers of either sign, decimal floats correctly rounded, strings and characters with every escape, symbols, lists with any brackets, dotted lists, annotations and sugar), independent of whitespace and comments, and displaying syntax through the standard library gives text that parses back to the same expression (floats of up to 15 significant digits). Every diagnostic for malformed text or for an expression points inside the text at the line and column of the offending construct.",
     ["inputs"],
     "all source texts",
     "lexer and parser tests list examples; the guarantee is over all texts and layouts",
     ["llrl0/src/lexer.rs", "llrl0/src/parser.rs", "llrl0/src/parser", "llrl0/src/sexp.rs", "llrl0/src/sexp", "llrl0/src/source_loc.rs", "llrl0/src/token.rs"],
     [("lexer", "llrl0/src/lexer.rs"), ("parser", "llrl0/src/parser.rs"), ("display", "llrl0/src/sexp.rs")],
     RT + "generated trees written in random layouts, read by both real compilers and shown by a macro, checked against the tree, displayed and read again; positions of injected errors",
     "texts of the generated sizes; the generator's own notation of each token is the oracle",
     ["what a macro is shown of the text read; displayed syntax; diagnostics"])

prop("C09", "Preprocessor directives keep exactly the selected code",
     "`$let`, `$let1`, `$for`, `$for1`, `$when`, `$not`, `$feature` and `$symbol` transform a module into exactly the program in which each directive is replaced by what it selects, repeats, binds or concatenates under the enabled features: bindings are visible in their bodies only and shadow outer ones, results are spliced where they stand, unselected code has no effect, the rest of the module is unchanged, including the source locations errors are reported at, and directives that are malformed, or expand to other than one form where one is needed, are refused at their place.",
     ["inputs", "configurations"],
     "all nestings of directives, all feature sets",
     "tests sample a few directive uses",
     ["llrl0/src/preprocess.rs", "llrl0/src/preprocess"],
     [("preprocessor", "llrl0/src/preprocess.rs")],
     RT + "generated nests of directives expanded by both real compilers, what a macro receives and what is refused where checked against a model of the directives",
     "the model in lib is trusted",
     ["what a macro is shown of the expanded text; diagnostics"])

prop("C10", "Modules initialise once, after their imports, whatever the build schedule",
     "In any acyclic module graph each module's top-level code runs exactly once and after that of every module it imports; several entry points run in the order given; import cycles are reported as errors; and the compiled program's behaviour and the diagnostics (as a set) do not depend on how many threads build the modules or how they interleave.",
     ["programs", "schedules", "configurations"],
     "all module graphs and all build schedules",
     "the pipeline tests use single modules; ordering and once-only guarantees quantify over graphs and thread interleavings",
     ["llrl0/src/pipeline.rs", "llrl0/src/module.rs", "llrl0/src/topological_sort.rs", "llrl0/src/lowering/context.rs", "llrl0/src/lowering.rs", "llrl0/src/report.rs"],
     [("parallel module build", "llrl0/src/pipeline.rs"), ("init ordering", "llrl0/src/lowering.rs, llrl0/src/topological_sort.rs")],
     RT + "random module graphs built repeatedly under varied thread counts and CPU pinning; a trace checker verifies the init log (exactly once, imports first)",
     "schedules are sampled by varying thread counts, pinning and repetition, not enumerated",
     ["init log printed by the executables", "diagnostics"])

prop("C11", "Names resolve by the import/export rules and never by accident",
     "Each use of a name refers to the declaration selected by lexical scope (parameters, type parameters, local variables and functions, pattern variables) and then by the module's one table of top-level names, which its declarations and its imports fill (names, renames, `_`, prefix and suffix patterns, renamed patterns) from what other modules export by the same patterns, re-exports included; an import takes precedence over the implicit standard library. A name that is not in scope or not exported, that stands for another kind of thing, or that two declarations claim is an error reported against that module, and instances count only where they are imported. Macros are looked up among top-level names.",
     ["programs"],
     "all module systems with arbitrary import and export lists",
     "tests contain a few import forms; the rules quantify over combinations of patterns and conflicts",
     ["llrl0/src/module/scope.rs", "llrl0/src/module/exports.rs", "llrl0/src/module/imports.rs", "llrl0/src/module.rs"],
     [("import resolution", "llrl0/src/module/")],
     RT + "random module systems built and run, the declaration each name reached observed at run time against a reference resolver",
     "the reference resolver in lib is trusted",
     ["stdout; diagnostics"])

prop("C12", "Macros run at compile time and see and produce exactly the S-expressions written",
     "A macro receives the S-expression of its use exactly as written (every atom, list shape, and annotation) and the program is compiled as if the use had been replaced by the S-expression it returns, repeatedly until no macro use remains; quotation, quasi-quotation and splicing build exactly the structure denoted, and an error returned by a macro is reported at its use.",
     ["programs", "inputs", "configurations"],
     "all S-expressions passed to and returned from macros, on both back ends",
     "tests cover a few macros; conversion between compiler and compiled representation must hold for every S-expression",
     ["llrl0/src/backend/native/data.rs", "llrl0/src/backend/chibi/executor.rs", "llrl0/src/backend/llvm/runtime.rs", "llrl0/src/module/sema", "std/s.llrl", "std/boot"],
     [("S-expression conversion", "llrl0/src/backend/native/data.rs, llrl0/src/backend/*/"), ("quasi-quotation", "std/boot")],
     RT + "generated S-expressions sent through probing macros of the real compiler, what the macro saw and what came back checked against the generated tree",
     "trees of the generated sizes",
     ["stdout of compiled programs; diagnostics"])

prop("C13", "The compiler answers every input with a program or a diagnostic",
     "For any source file contents and module graph that stay within the documented language (no unsafe built-in operation at a wrong type, no macro that produces itself without end, forms of at most a thousand elements nested at most two hundred deep), each compiler (llrl0 and llrl1) terminates with either an executable that starts or a diagnostic and a failing exit status; it never crashes, hangs, or reports success without producing the program.",
     ["inputs", "programs"],
     "all byte strings as source files and all mutations of valid programs",
     "tests feed well-behaved inputs; totality quantifies over malformed ones",
     ["llrl0/src/main.rs", "llrl0/src/parser.rs", "llrl0/src/syntax", "llrl0/src/module", "llrl0/src/unification", "llrl0/src/lowering", "llrl0/src/report.rs"],
     [("error reporting", "llrl0/src/report.rs, llrl0/src/module/error.rs")],
     RT + "grammar-aware and byte-level mutation of real modules fed to the real compiler, exit status, signals and time monitored",
     "inputs are sampled; deep nesting beyond the generated depth is not claimed",
     ["exit status, signals, stderr, elapsed time"])

prop("C14", "The self-hosted compiler agrees with the bootstrap compiler",
     "llrl1 (the compiler written in llrl) accepts and rejects the same programs as llrl0 and the executables it produces print the same output, on every program in the language both implement.",
     ["programs", "configurations"],
     "all programs in the common language",
     "llrl1's own tests run fixed samples; agreement quantifies over programs",
     ["llrl1/lowering", "llrl1/backend/chibi", "llrl1/backend/native", "llrl1/module", "llrl1/unification", "llrl1/pattern-checker.llrl", "llrl1/preprocess"],
     [("chibi code generation in llrl", "llrl1/backend/chibi/codegen.llrl"), ("semantic analysis in llrl", "llrl1/module/sema")],
     RT + "generated programs compiled by both real compilers, outputs and verdicts compared with each other and with the reference interpreter",
     "llrl1 is built with the chibi back end only; its LLVM back end is not observed in the quick tier",
     ["stdout, exit status, diagnostics verdict"])

prop("C15", "The assembler emits the encoding of the instruction written",
     "For every instruction form of the x86-64 assembler and every combination of operands it accepts (registers of each size, every memory addressing form, immediates of each size), the bytes emitted decode to exactly that instruction with exactly those operands; jumps and references to labels within a section reach the label, forward or backward; and the instruction table the code generator (xtencg) makes encodes the same as the committed one.",
     ["inputs"],
     "all instruction forms and operand values",
     "the tests encode a sample of instructions with fixed operands",
     ["xten0/src/asm", "xten0/src/asm.rs", "xtencg"],
     [("encoding", "xten0/src/asm/encoding.rs"), ("instruction table", "xten0/src/asm/inst.rs"), ("labels and relocations", "xten0/src/asm/object.rs, asm/writer.rs")],
     RT + "every instruction form with random operands assembled by the real crate and the emitted bytes decoded by an independent disassembler",
     "binutils/LLVM disassemblers are the oracle",
     ["emitted bytes"])

prop("C16", "Object files and JIT linking place code and data where references expect them",
     "An object produced by the assembler, whether written as an ELF file and linked by the system linker (in any order, through ld -r or directly) or loaded by the JIT engine, keeps its contents, symbols, alignments (up to 16) and relocations: every reference reaches the definition it names, at any mix of sections, symbols (global, local, unnamed), relocation kinds, addends and load order (the JIT: definitions loaded before, registered or resolved), objects loaded earlier keep working, loaded code is executable and not writable, and duplicate symbols, missing symbols and offsets that do not fit are reported instead of linked.",
     ["inputs", "configurations"],
     "all sets of objects with arbitrary sections, symbols and cross references",
     "the tests link a few fixed objects",
     ["xten0/src/elf.rs", "xten0/src/elf", "xten0/src/jit.rs", "xten0/src/jit", "xten0/src/asm/object.rs"],
     [("ELF writer", "xten0/src/elf"), ("JIT linker", "xten0/src/jit")],
     RT + "random object graphs linked by ld and by the JIT and executed, every reference's observed target checked",
     "object graphs of the generated sizes",
     ["values returned by the executed code, readelf output"])

prop("C17", "The runtime library converts values and reaches the system faithfully",
     "The runtime's conversions between numbers and strings (floats in decimal notation), process arguments, file, directory and path operations and process execution return exactly what the underlying system would for any argument (bytes included), report failures as errors with the system's error code, and never read or write outside the buffers they are given.",
     ["inputs", "fault_sequences"],
     "all numbers, strings, byte contents and system errors",
     "no test exercises the runtime beyond single calls",
     ["rt/rt.c", "rt/rt.h", "std/system.llrl", "std/io.llrl", "std/io"],
     [("runtime functions", "rt/rt.c"), ("I/O wrappers", "std/io")],
     RT + "rt.c under AddressSanitizer/UBSan with generated arguments and injected faults, results checked against independent computations",
     "POSIX environment of the sandbox",
     ["results of runtime calls, sanitizer reports"])

prop("C18", "Ordered maps and sets behave as sorted finite maps",
     "Under any sequence of operations the ordered map and ordered set return what a sorted finite map would: lookups, insertions, removals and updates affect exactly the given key, iteration visits each entry once in key order, length and extremal and range queries agree, and every operation stays logarithmic in the number of entries.",
     ["histories", "inputs"],
     "all operation histories and key types with a total order",
     "the tests run short fixed sequences; tree rebalancing cases need long random histories",
     ["std/ord-map.llrl", "std/ord-set.llrl", "std/internal"],
     [("tree balancing", "std/ord-map.llrl, std/internal")],
     RT + "random operation histories executed by compiled programs, every returned value logged and checked offline against a model",
     "histories of the generated lengths; the model is trusted",
     ["operation log of the executables"])

prop("C19", "Hash maps and sets behave as finite maps",
     "Under any sequence of operations the hash map and hash set return what a finite map would, whatever the hash collisions, growth and deletions: lookups, insertions, removals and updates affect exactly the given key, iteration visits each entry exactly once, and lengths agree.",
     ["histories", "inputs"],
     "all operation histories, key types and hash functions consistent with equality",
     "the tests run short fixed sequences without collision clusters, wrap-around or long deletion histories",
     ["std/hash-map.llrl", "std/hash-set.llrl", "std/hash.llrl"],
     [("open addressing", "std/hash-map.llrl")],
     RT + "random operation histories with adversarial hash functions executed by compiled programs, every result checked against a model",
     "histories of the generated lengths; the model is trusted",
     ["operation log of the executables"])

prop("C20", "Persistent collections never change an existing version",
     "Every operation on a persistent collection returns a new version with exactly the entries of the model after that operation, while all earlier versions keep exactly the entries they had, for any branching history of operations; lookups, insertions and removals of the ordered one take logarithmically many key comparisons.",
     ["histories", "inputs"],
     "all branching operation histories",
     "the tests follow one version; sharing errors show only when old versions are read again",
     ["std/persistent"],
     [("persistent structures", "std/persistent")],
     RT + "branching histories executed by compiled programs, all live versions re-read and checked against a model",
     "histories of the generated lengths; the model is trusted",
     ["operation log of the executables"])

prop("C21", "Arrays, vectors and iterators transform sequences exactly and stay in bounds",
     "Array, vector and iterator operations return exactly what the same operation on a mathematical sequence returns, for every length including empty, every index and range; out-of-range accesses are reported (absent value or panic) and never read or write another element; slices alias exactly the elements they denote; iterator adaptors consume their source lazily and in order.",
     ["inputs", "histories"],
     "all sequences, indices, ranges and adaptor chains",
     "tests use short fixed sequences",
     ["std/array.llrl", "std/vector.llrl", "std/iterator.llrl", "std/it.llrl", "std/access.llrl"],
     [("bounds and copying", "std/array.llrl, std/vector.llrl"), ("adaptors", "std/iterator.llrl, std/it.llrl")],
     RT + "random operation chains executed by compiled programs, every result checked against a list model",
     "chains of the generated lengths; the model is trusted",
     ["operation log of the executables"])

prop("C22", "Strings and characters are handled as valid UTF-8 text",
     "String, text and character operations (concatenation, search, slicing, splitting, escaping, conversion between bytes, scalars and text, readers and writers) return what the same operation on the sequence of Unicode scalars returns, for every string including multi-byte and boundary cases; invalid byte sequences are rejected.",
     ["inputs"],
     "all strings, byte strings and scalar values",
     "tests use a few short strings",
     ["std/string.llrl", "std/text.llrl", "std/char.llrl", "std/string-reader.llrl", "std/string-writer.llrl"],
     [("UTF-8 handling", "std/text.llrl, std/char.llrl")],
     RT + "generated strings and bytes processed by compiled programs, every result checked against Python's str/bytes",
     "strings of the generated lengths",
     ["operation log of the executables"])

prop("C23", "Numbers are parsed, printed, converted and computed exactly",
     "Parsing, printing (in every radix and format offered), conversions, bit operations and mathematical functions of the standard library return the mathematically specified result for every value of every numeric type, reporting overflow or malformed text as absent values; a float prints with the documented number of significant digits (16 for F64, 8 for F32), correctly rounded, and decimal text parses to the nearest float; xxHash equals the published XXH64, however the input is split into writes.",
     ["inputs"],
     "all values of all numeric types and all strings",
     "tests sample a few numbers",
     ["std/integer.llrl", "std/float.llrl", "std/real.llrl", "std/math.llrl", "std/conv.llrl", "std/bits.llrl", "std/arithmetic.llrl", "std/num-literals.llrl", "std/xxhash.llrl"],
     [("integer parsing/printing", "std/integer.llrl"), ("xxhash", "std/xxhash.llrl")],
     RT + "boundary and random values processed by compiled programs, every result checked against Python/published algorithms",
     "values sampled at boundaries and at random",
     ["operation log of the executables"])

prop("C24", "Derived instances obey the laws of their classes",
     "For any data type, derived equality is structural equality, derived ordering is the lexicographic order of constructor then fields and is a total order consistent with equality and with every comparison operator, derived hashing agrees with equality, derived display shows the value's structure, and derived copies are equal, independent values.",
     ["programs", "inputs"],
     "all data declarations and all pairs of values",
     "tests derive for a few types and compare a few values",
     ["std/derive.llrl", "std/eq.llrl", "std/ord.llrl", "std/hash.llrl", "std/debug.llrl", "std/copy.llrl", "std/default.llrl", "std/tuple.llrl"],
     [("derive macro", "std/derive.llrl")],
     RT + "generated data declarations with derived instances, all pairs of generated values compared at run time against structural laws",
     "types and values of the generated sizes",
     ["stdout of the compiled executables"])

prop("C25", "The llrl assembler library produces the same code as the Rust one",
     "For every instruction form and operand combination, the assembler library written in llrl emits the same bytes as the one written in Rust, and objects and relocations it writes are accepted by the system linker with the same meaning.",
     ["inputs"],
     "all instruction forms and operands",
     "its tests encode a fixed sample",
     ["xten1/asm", "xten1/elf", "xten1/jit", "xtencg"],
     [("encoding in llrl", "xten1/asm")],
     RT + "the same random instruction streams assembled by both real libraries and compared byte for byte and by disassembly",
     "operands sampled per form",
     ["emitted bytes"])

prop("C26", "The command line does what it was asked and says truthfully how it went",
     "The compiler's exit status and output reflect what happened: arguments after `--` reach the program unchanged, the status of a program that was run is passed on, errors give a failing status and no stale or partial executable is presented as new, feature flags and package references have exactly the documented effect, and the same inputs always give the same result.",
     ["configurations", "inputs", "fault_sequences"],
     "all command lines, argument strings, features and package layouts",
     "no test drives the command line",
     ["llrl0/src/main.rs", "llrl0/src/pipeline.rs", "llrl0/src/source", "llrl0/src/path.rs", "llrl0/src/backend/options.rs", "std/system.llrl"],
     [("driver", "llrl0/src/main.rs, llrl0/src/pipeline.rs"), ("source loading", "llrl0/src/source")],
     RT + "random command lines, arguments, feature sets and package layouts run for real, statuses and outputs checked against a model",
     "command lines as generated",
     ["exit status, stdout, files produced"])
