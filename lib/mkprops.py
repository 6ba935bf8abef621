#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements are kept here as one readable table)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state], "hook_needed": None}})

prop("C01", "Integer operators compute the value and type C prescribes",
 "For every pair of integer operand types and all operand values for which C11 defines the result, a compiled binary expression (+ - * / % & | ^ << >>, comparisons, && ||) returns exactly the value, in exactly the result type, that C11 with the Windows LLP64 type sizes prescribes. This holds whether the operands are parameters, locals, globals, memory, constants or nested subexpressions, and the compiled code neither faults nor disturbs anything else.",
 ["inputs", "programs"], "all values of all operands, every pair of integer types, every operator, operand placements and nestings of expressions",
 "A run-time test executes a handful of operand values through a handful of type pairs; a wrong sign extension, operand size or register choice shows only for particular values in a particular pair of types and operand placement.",
 ["src/parse.c", "src/emit_x64.c"], [("usual arithmetic conversions and operator typing", "src/parse.c"), ("code emission for binary operators, register allocation, operand loading", "src/emit_x64.c")], ["value returned by the compiled function in the emitted .obj"])
prop("C02", "Casts, unary operators, ++/-- and compound assignment follow C",
 "For all operand values, explicit and implicit conversions between any two integer types (including _Bool), unary + - ~ !, pre/post ++ and --, assignment and every compound assignment operator on integer lvalues produce the value C11 prescribes, leave that value in the object, and have the type C11 prescribes. Each lvalue is evaluated exactly once and nothing outside the object is written.",
 ["inputs", "programs"], "all values, every pair of integer types, every unary and assigning operator, lvalues in locals, globals, arrays and structure members",
 "Truncation and extension mistakes are visible only for values whose dropped or replicated bits matter; tests use a few values per operator.",
 ["src/parse.c", "src/emit_x64.c"], [("implicit and explicit conversions", "src/parse.c"), ("emission of casts, inc/dec and compound assignments", "src/emit_x64.c")], ["returned value and memory after the call"])
prop("C03", "float and double expressions perform exactly the IEEE operations written",
 "For all operand values, compiled float and double arithmetic, comparisons, negation, assignments, increments and conversions between float, double and integer types (where the converted value is in range) give bit for bit the result of performing the C operations as written in their C types, with any NaN accepted for a NaN.",
 ["inputs", "programs"], "all bit patterns of all floating and integer operands (including NaN, infinities, signed zeros), all operators and type pairs, nestings that keep several values in registers",
 "Tests use a few ordinary numbers; unordered comparisons, signed zeros, unsigned 64-bit conversion and register spilling need specific values or shapes.",
 ["src/emit_x64.c", "src/parse.c"], [("emission of SSE arithmetic, comparison and conversion", "src/emit_x64.c"), ("usual arithmetic conversions for floating types", "src/parse.c")], ["returned value"])
prop("C04", "A constant expression has the value the same expression has at run time",
 "Wherever the language takes a constant expression (enumerators, case labels, array sizes, bit-field widths, static initialisers, _Static_assert, constant subexpressions of ordinary expressions), the compiler uses the value and the type that C11 defines for the expression, which is the value the same expression computes at run time. A _Static_assert fails exactly when its expression is zero.",
 ["inputs", "programs"], "all literal operand values within the digit bound, operators, type suffixes and casts, every place that takes a constant expression",
 "Folding is implemented separately from code generation; a discrepancy needs a particular operator, width and value, of which tests contain a few.",
 ["src/parse.c", "src/ast.c", "src/main.c"], [("constant folding", "src/parse.c"), ("evaluation of static initialisers", "src/main.c")], ["bytes of static data, code generated for the expression"])
prop("C05", "Number and character literals have the value and type C gives them",
 "Every well-formed integer literal (decimal, octal, hexadecimal, binary, with any suffix) and every character constant (plain, escaped, with L/u/U prefix) denotes the value and has the type C11 gives it on Windows; every floating literal denotes the nearest double, converted to float with suffix f.",
 ["inputs"], "all digit strings and characters up to the length bound, all suffixes and prefixes",
 "Boundaries between types (2^31, 2^32, 2^63), digit classes, separators and escapes make a large space of which tests contain a few spellings.",
 ["src/preprocess.c", "src/parse.c"], [("number and character tokenisation", "src/preprocess.c"), ("literal typing", "src/parse.c")], ["value and sizeof of the literal in compiled code"])
prop("C06", "String literals produce exactly the bytes the source spells",
 "The object a string literal denotes contains exactly the characters spelled in the source with escapes, adjacent-literal concatenation, line splices (outside escape sequences) and encoding prefixes applied as C11 says, followed by a terminating zero, and has the corresponding array size; this holds for literals used as pointers and as array initialisers alike.",
 ["inputs"], "all byte values at symbolic positions inside literals, all escape forms, all prefixes, concatenations",
 "Tests spell a few literals; a wrong escape or length shows only for particular neighbouring bytes.",
 ["src/preprocess.c", "src/parse.c"], [("string tokenisation and escape processing", "src/preprocess.c"), ("string concatenation and literal emission", "src/parse.c")], ["bytes of the emitted data"])
prop("C07", "#if and #elif select the branch whose condition C makes nonzero",
 "For every controlling expression over integer and character constants, defined, macros and undefined identifiers, with all C operators, #if/#elif/#else/#ifdef/#ifndef keep exactly the group C11 selects, evaluating in 64-bit intmax_t/uintmax_t arithmetic with short-circuiting, and text in skipped groups has no effect.",
 ["inputs", "programs"], "all operand digits, all operators at every position, nesting of conditionals",
 "Precedence, signedness and nesting errors show for particular operator combinations and values only.",
 ["src/preprocess.c"], [("static-if expression evaluation and conditional stack", "src/preprocess.c")], ["which group's code is compiled"])
prop("C08", "Macro expansion yields the token sequence C prescribes",
 "For object-like and function-like macros, including arguments that are themselves macro invocations, # and ##, __VA_ARGS__, rescanning, self-reference, redefinition and #undef, the program compiled is the one obtained by expanding according to C11 6.10.3.",
 ["inputs", "programs"], "all shapes of macro definitions and invocations within the generated bound, symbolic characters in arguments",
 "Expansion corner cases (placemarkers, hidden names, nested invocations, empty arguments) combine; tests contain individual examples.",
 ["src/preprocess.c"], [("macro expansion, stringification and pasting", "src/preprocess.c")], ["compiled result of the expanded program, output of /EP"])
prop("C09", "Control flow executes exactly the statements C prescribes, in order",
 "For all inputs, if/else, while, do, for, switch (with fallthrough, defaults anywhere, case values of any size and nested switches), goto, break, continue, return, ?:, &&, || and the comma operator execute exactly the sequence of side effects C11 prescribes, however large the bodies or jump distances are.",
 ["inputs", "programs"], "all values of the tested variables, statement nestings, case sets, body sizes around the short/long jump boundary",
 "Branches taken for particular values, sparse case sets and long jump distances are sampled at a few points by tests.",
 ["src/parse.c", "src/emit_x64.c"], [("statement parsing into the intermediate representation", "src/parse.c"), ("jump and switch emission, jump patching", "src/emit_x64.c")], ["trace of side effects and the returned value"])
prop("C10", "Calls follow the Windows x64 calling convention in both directions",
 "Compiled functions receive and pass every combination of integer, pointer, floating, structure and variadic arguments and results where the Windows x64 convention puts them, for any number of arguments, so that they interoperate with code from other compilers. They preserve the non-volatile registers and the caller's frame, keep the stack 16-byte aligned at calls, reserve the home area, and do not rely on volatile registers or undefined upper bits.",
 ["inputs", "programs"], "all argument values, argument type sequences up to the bound, direct, indirect, nested and variadic calls, callee and caller side",
 "Tests call between functions of the same compiler, where both sides can be wrong together, with few signatures and values.",
 ["src/emit_x64.c", "src/parse.c"], [("argument and result placement, prologue and epilogue", "src/emit_x64.c")], ["registers and stack at every call and return"])
prop("C11", "Structure, union and bit-field layout and access match the Windows C ABI",
 "sizeof, alignment and member offsets of every structure and union (nested, anonymous, packed, over-aligned, with arrays and bit-fields) equal those of the Windows C ABI; reading a member yields the value last stored in it, and storing to a member or bit-field changes exactly the bits of that member.",
 ["inputs", "programs"], "all member type sequences within the bound, all pack and alignment settings in the bound, all stored values and prior memory contents",
 "Layout rules interact (packing, alignment, bit-field units, unions); a test checks a few declarations with a few values.",
 ["src/parse.c", "src/emit_x64.c"], [("struct layout", "src/parse.c"), ("bit-field load and store", "src/emit_x64.c")], ["memory written through the compiled accessors, sizeof and offsetof values"])
prop("C12", "Initialisers set every byte of every object as C prescribes",
 "Automatic and static objects of any scalar, array, structure or union type, initialised with nested, flat, designated, partial, overriding or string initialisers or compound literals, hold in every member exactly the value C11 prescribes, with all members not mentioned set to zero; addresses in static initialisers refer to the right object and offset.",
 ["inputs", "programs"], "all run-time values used in initialisers, initialiser shapes within the bound, static and automatic storage",
 "Designator and brace-elision combinations are many and stale stack contents decide whether a missing zero is visible; tests see one memory content.",
 ["src/parse.c", "src/main.c", "src/emit_x64.c"], [("initialiser parsing", "src/parse.c"), ("static data evaluation", "src/main.c"), ("automatic initialisation", "src/emit_x64.c")], ["object contents"])
prop("C13", "Pointer, array and aggregate accesses touch exactly the object designated",
 "For all index and pointer values that stay inside their objects, pointer arithmetic and differences, subscripts, member access, dereference, address-of and structure assignment read and write exactly the bytes of the designated object; pointer comparisons and conversions give the values C11 and the flat Windows address space prescribe.",
 ["inputs", "programs"], "all index values and stored contents, element sizes, chains of member and subscript operators, aggregate sizes",
 "A scaled index, displacement width or copy length error appears only for particular sizes and indices.",
 ["src/parse.c", "src/emit_x64.c"], [("address computation and aggregate copy", "src/emit_x64.c")], ["memory after the call, returned value"])
prop("C14", "The order of top-level declarations does not change the program",
 "For any permutation of the file-scope declarations of a valid program (functions, globals, types, enumerators, static asserts), and for any split of them over several source files given together, compilation succeeds and the compiled functions behave the same.",
 ["programs", "configurations"], "all permutations of the declaration sets within the bound, all inputs of the compiled functions",
 "The number of orders is factorial; tests fix one order per program.",
 ["src/main.c", "src/parse.c"], [("sleeping and waking declarations on unresolved identifiers", "src/main.c")], ["exit code and behaviour of the compiled functions"], [("sleepers", "declarations waiting for an identifier", "src/main.c")])
prop("C15", "The number of worker threads and their schedule do not change the result",
 "For every number of worker threads and every interleaving of the workers, compiling a program terminates with the same exit code and with an output whose functions and data are the same as those of the single-threaded compilation, and no compile crashes or hangs.",
 ["schedules", "configurations"], "interleavings of the worker threads at atomic operations and blocking calls with a bounded number of preemptions, thread counts in the bound",
 "Tests run one schedule per run, chosen by the operating system, with one thread by default.",
 ["src/main.c", "src/std.c", "src/windows.c"], [("work queues", "src/main.c"), ("atom, declaration and sleeper tables", "src/main.c")], ["exit code and output file"])
prop("C16", "Any input file makes the compiler terminate cleanly",
 "For every byte sequence given as a source file the compiler terminates with exit code zero or one, without an access violation, a failed internal assertion, a division fault, unbounded recursion or an endless loop.",
 ["inputs"], "all byte values at the symbolic positions of the generated contexts, for every lexical and syntactic context in the bound",
 "Error paths depend on exact malformed input; tests hold a list of past crashes.",
 ["src/preprocess.c", "src/parse.c", "src/main.c", "src/diagnostic.c"], [("tokenizer bounds, error recovery", "src/preprocess.c, src/parse.c")], ["how the process ends"])
prop("C17", "Programs that violate a C constraint are rejected with a located diagnostic",
 "A program that violates a constraint the compiler documents by an error test (undeclared names, wrong operand types, conflicting redefinitions, duplicate cases and members, bad declarators, failing static asserts, unterminated constructs and the like) makes the compiler exit with a nonzero code, print an error naming the file and line at fault, and write no output file, regardless of the surrounding valid code.",
 ["programs", "inputs"], "all spellings of the symbolic parts of the violating constructs and all positions in the generated surrounding code",
 "Error tests contain one instance of a violation at one place; a check skipped for some operand type or position goes unnoticed.",
 ["src/parse.c", "src/preprocess.c", "src/diagnostic.c", "src/main.c"], [("report_error and the error flag that stops the output", "src/diagnostic.c, src/main.c")], ["exit code, diagnostics, presence of an output file"])
prop("C18", "Object files are well-formed COFF that any linker can use",
 "Every .obj written is a well-formed x64 COFF file: header, section, relocation, symbol, auxiliary and string table entries lie in bounds and agree with each other, sections do not overlap in the file, each external function and object is defined once under its C name at its right section, offset and alignment, and each reference to another symbol is a relocation of the right type against that symbol.",
 ["programs", "configurations"], "programs with the bounded mixes of functions, data, externs, long names, thread-locals, dllimports and sizes; options that change the object contents",
 "Tests link the object with one linker on small programs and never inspect most fields.",
 ["src/obj_writer.c"], [("object file writer", "src/obj_writer.c")], ["bytes of the .obj"])
prop("C19", "Executables and DLLs are well-formed and work at any load address",
 "Every .exe and .dll written is a well-formed PE32+ image: headers, sections, import, export, relocation, exception and debug directories lie in bounds, are ordered as the loader requires and agree with each other. Loaded by the documented PE rules at any 64 KiB aligned base, its entry point and exported functions behave as the program prescribes, with imports bound to the named functions.",
 ["programs", "configurations", "inputs"], "all load addresses, image bases and the bounded mixes of imports, exports, data and options",
 "Tests run each image at the address one loader picks.",
 ["src/coff_writer.c"], [("PE writer, import and export tables, base relocations", "src/coff_writer.c")], ["bytes of the image and behaviour of the loaded image"])
prop("C20", "Unwind information describes every function's frame exactly",
 "For every emitted function and every instruction boundary reachable in it, the Windows x64 unwind procedure applied to the function's .pdata/.xdata entry and the machine state at that point yields the caller's return address, stack pointer and non-volatile registers; every emitted function has exactly one entry covering it.",
 ["inputs", "programs"], "all argument values, every instruction boundary on the explored paths, frame sizes around the encoding boundaries",
 "Tests unwind from a few call sites, never from the middle of a prologue or with large frames.",
 ["src/obj_writer.c", "src/coff_writer.c", "src/emit_x64.c"], [("unwind codes", "src/obj_writer.c, src/coff_writer.c"), ("prologue emission", "src/emit_x64.c")], [".pdata and .xdata against the executed prologue"])
prop("C21", "Inline assembly and intrinsics assemble to the instructions written",
 "Every inline-assembly instruction and intrinsic the compiler accepts is encoded as exactly the instruction written, with the operands, sizes, displacements and immediates written, for every register and memory operand form it accepts; an intrinsic returns for all inputs the value its documentation defines.",
 ["inputs", "programs"], "all operand values, register and addressing-mode combinations, displacement and immediate boundaries",
 "Encodings have many prefix, ModRM, SIB and displacement cases per instruction; tests contain a few operands each.",
 ["src/emit_inline_asm_block.c", "src/parse_asm_block.c", "implicit/include/intrinsic.c"], [("instruction encoding", "src/emit_inline_asm_block.c"), ("operand parsing", "src/parse_asm_block.c")], ["emitted bytes, executed effect"])
prop("C22", "printlike calls pass the inferred format and exactly the matching arguments",
 "A call of a __declspec(printlike) function passes a format string equal to the documented expansion of the written format ({}, {:..}, {name}, {name=}, {#}, %?, C specifiers, or none) for the types of its arguments, followed by exactly the argument values that format consumes, in order and promoted as C does, with each argument expression evaluated once.",
 ["inputs", "programs"], "all argument values, argument types within the bound, format specifier spellings",
 "Tests compare a few printed lines.",
 ["src/parse.c"], [("printlike argument expansion", "src/parse.c")], ["arguments received by the callee"])
prop("C23", "Layout of the source text does not change the program",
 "Replacing white space between tokens by any other white space, comments, line splices between tokens or line-ending styles, adding a byte order mark, moving text into an included file, or preprocessing first with /EP and compiling the result, leaves the compiled functions and data unchanged.",
 ["inputs", "programs"], "all white space and comment bytes at the symbolic gaps between tokens",
 "The tokenizer's fast paths depend on the exact bytes around a token; tests have one layout each.",
 ["src/preprocess.c"], [("tokenizer, comments, line splices, includes", "src/preprocess.c")], ["code and data sections of the .obj"])
prop("C24", "Options that only affect diagnostics or debug data do not change the code",
 "For every program, options that select warnings, verbosity, debug information or the number of threads, and equivalent spellings of an option (/ or -, joined or separate value, order of options and files), leave the code and data of the output unchanged, and /D and /I have the same effect as a #define or an include by path.",
 ["configurations", "inputs"], "all combinations of the options in the bound and symbolic option values",
 "The number of option combinations is exponential; tests fix one command line per program.",
 ["src/cli.c", "src/main.c"], [("command line parsing", "src/cli.c, src/main.c")], ["code and data sections of the .obj"])
prop("C25", "Debug line and variable records describe the code that was emitted",
 "The CodeView records in an object file locate every function, map each code offset to the line of the statement it was compiled from in increasing offsets within the function, and give for each parameter and local variable the frame offset at which the compiled code keeps its value.",
 ["inputs", "programs"], "all argument values, statements and variables of the bounded programs",
 "No test reads the debug information.",
 ["src/obj_writer.c", "src/coff_writer.c"], [("CodeView emission", "src/obj_writer.c")], [".debug$S contents against executed stores"])
if __name__ == '__main__':
    import os
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    try:
        import jsonschema; sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for p in P: jsonschema.validate(p, sch)
    except ImportError: pass
    print(len(P), 'properties')
