"""Writes properties.jsonl (kept as a script so that the wording is easy to review)."""
import json, os
P = []
def prop(id, title, statement, over, text, tests, files, mechanism, observe=("the bytes or the error that unify returns",), state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": tests,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": list(observe), "hook_needed": None}})
FN = "src/function/mod.rs"; UP = "src/function/upcast.rs"; CV = "src/function/convert.rs"; BU = "src/function/builder.rs"
ST = "src/serialization/stream.rs"; WR = "src/serialization/writer.rs"; L50 = "src/function/instruction/lua50.rs"
L51 = "src/function/instruction/lua51.rs"; LAY = "src/function/instruction/operand/layout.rs"; FM = "src/format/mod.rs"
prop("C01", "Converting any bytes ends with a result or an error, never a crash or hang",
 "For every byte string, output format and valid settings (accepted layouts, at least one field per flush), a conversion returns either converted bytes or one of the documented errors. It never panics, overflows the stack, aborts or fails to return, whatever lengths, counts, indices, jump distances, operand values or nesting the bytes claim.",
 ["inputs", "configurations"], "all byte strings, all 128 output formats, all valid instruction layouts, stack limits and fields-per-flush values",
 "Tests run eleven well-formed files and a handful of short byte arrays; hostile counts, lengths, operand extremes and nesting are never tried, and arithmetic that overflows does so only for specific values.",
 ["src/lib.rs", ST, FN, UP, CV, BU, L51], [("bounds checks", ST), ("error returns instead of unwraps", FN), ("jump remapping", BU)])
prop("C02", "Every conversion carries exactly the requested header",
 "The bytes returned by a conversion start with the output signature, the version 5.1 and then the format byte, byte order, four widths and the integral flag of the requested output format, and everything after the header is encoded in that format. This holds for input of either Lua version in any source format.",
 ["inputs", "configurations"], "all pairs of the 128 source formats and 128 output formats, both versions, any signatures",
 "Tests convert to one or two formats and do not look at the bytes; 16384 pairs exist.",
 ["src/lib.rs", FM, WR], [("Format::write", FM), ("ByteWriter", WR), ("unify", "src/lib.rs")])
prop("C03", "Input is passed through unchanged only if it already is what was asked for",
 "Input that is Lua 5.1 byte code in the requested format, with the output signature and with the same compile constants and instruction layout as the output, is returned byte for byte. Input that differs in version, format, signature, instruction layout or compile constants is never returned as is but converted.",
 ["inputs", "configurations"], "all inputs and all combinations of source settings, output settings and output formats",
 "The early return is compiled out of test builds, so no unit test executes it at all.",
 ["src/lib.rs"], [("early return of unify", "src/lib.rs")])
prop("C04", "A well-formed chunk that the output can represent is accepted and stays complete",
 "A well-formed chunk whose sizes, operands, numbers and stack needs fit the output format is converted rather than refused, and the result is one complete Lua 5.1 chunk with nothing missing and nothing left over. A chunk whose instructions the output cannot represent is refused with the error for it and never written with altered operands.",
 ["inputs", "programs", "configurations"], "all well-formed Lua 5.0 and 5.1 chunks and all output settings, including layouts wider than the output instruction",
 "Tests accept eleven files with default settings; they neither parse the output nor sit at the representation limits.",
 ["src/lib.rs", FN, "src/function/constant.rs", ST, WR], [("Function::from_byte_stream and write", FN), ("LuaInstruction::to_u64", "src/function/instruction/mod.rs")])
prop("C05", "Re-encoding Lua 5.1 changes the encoding and nothing else",
 "Converting Lua 5.1 byte code to another Lua 5.1 format with the same fields-per-flush keeps every function's source name, line numbers, parameter and upvalue counts, vararg flags, stack size, instructions, constants, nested functions and debug information, in the same order.",
 ["inputs", "configurations"], "all Lua 5.1 chunks and all source and output formats and layouts",
 "No test compares the content of a converted 5.1 file with its source.",
 [FN, L51, "src/function/constant.rs", ST, WR], [("Function::from_byte_stream and write", FN), ("instruction decoding and encoding", L51)])
prop("C06", "Strings are preserved byte for byte",
 "Every string of a chunk - string constants, source names, names of locals and upvalues - has the same bytes and the same length after conversion, for every byte value and every length, including embedded zeros, bytes that are not UTF-8, the empty string and the absent string.",
 ["inputs", "configurations"], "all strings and all combinations of size widths and byte orders",
 "Tests use short ASCII strings only.",
 [ST, WR, "src/function/constant.rs", FN], [("ByteStream::string", ST), ("ByteWriter::string", WR)])
prop("C07", "Numbers keep their value or the conversion fails",
 "A numeric constant keeps its exact value when the output number format can hold it; converting to a narrower floating-point format rounds to nearest. A value that an integral number format cannot hold, or an integer that a double cannot hold exactly, makes the conversion fail with a precision or overflow error instead of being changed.",
 ["inputs", "configurations"], "all values of the four source number formats, both byte orders, and all four output number formats",
 "Tests convert 9 and 10; the boundaries of the types are where conversions saturate or wrap.",
 ["src/number.rs", ST, WR, FM], [("Number::as_integer and as_float", "src/number.rs"), ("ByteWriter::number", WR), ("detection of integral numbers in Lua 5.0", FM)])
prop("C08", "Operands survive any change of layout or are refused",
 "For every pair of instruction layouts and instruction widths, each operand of each instruction - registers, constant references, constant indices, jump distances, flags - denotes the same thing after conversion. An operand the output layout cannot hold makes the conversion fail with ValueTooBigForOperand, and never spills into another field.",
 ["inputs", "configurations"], "all instructions with all operand values, over all valid layouts of Lua 5.0 and 5.1 (orders and sizes of the four fields)",
 "Layout tests use a few fixed words with the default layouts; boundaries between register and constant operands and field limits differ per layout.",
 [L50, L51, LAY, "src/function/instruction/operand/mod.rs", "src/function/instruction/operand/mode.rs"], [("OperandLayout get and put", "src/function/instruction/operand/mod.rs"), ("operand modes", "src/function/instruction/operand/mode.rs"), ("InstructionLayout", LAY)])
prop("C09", "Every unsupported header or content is rejected with the error that names it",
 "A chunk with a wrong signature, version, byte order, width, instruction format, opcode or constant type is rejected with the documented error for the first offending field in file order, and the error carries the value that was found. It is never accepted or reported as something else.",
 ["inputs", "configurations"], "every value of every header byte and of every opcode and constant tag, alone and combined with other damage, in both versions",
 "Tests try one bad value for some of the fields.",
 ["src/lib.rs", FM, "src/format/width.rs", "src/format/endianness.rs", "src/format/version.rs", FN, "src/function/instruction/macros.rs"], [("Format::from_byte_stream", FM), ("unify", "src/lib.rs"), ("Function::get_constants", FN)])
prop("C10", "Truncated or padded byte code is detected",
 "Every proper prefix of a well-formed chunk that still has its signature is rejected with InputTooShort, and every well-formed chunk followed by extra bytes is rejected with InputTooLong. A count or length that claims more than the input holds is InputTooShort as well.",
 ["inputs", "crash_points"], "every cut position of every chunk, every suffix, and every inflated count or length",
 "One test appends bytes and a few truncate a stream of three bytes.",
 ["src/lib.rs", ST, FN], [("ByteStream bounds checks", ST), ("is_empty test in unify", "src/lib.rs")])
prop("C11", "Lua 5.0 branches, expressions and calls behave the same under Lua 5.1",
 "For every Lua 5.0 function without loops over tables, the converted function makes the same external calls with the same arguments in the same order, assigns the same globals, takes the same branches and returns the same values, whatever its callees return. Jumps over or into code that the conversion lengthened or shortened still reach the instruction they reached before.",
 ["programs", "schedules", "inputs"], "all Lua 5.0 programs with nested conditions, logical operators, while and repeat loops, breaks and calls, and all behaviours of the functions they call",
 "Unit tests compare single instructions; the end-to-end tests that run code are disabled without the integration feature and cover eleven programs.",
 [UP, BU], [("instruction mapping", UP), ("FunctionBuilder::finalize and jump_destination", BU)], state=[("line_weight", "how many instructions stand for one original instruction", BU)])
prop("C12", "Numeric for loops run the same iterations with the same variables intact",
 "A numeric for loop converted from Lua 5.0 runs its body for the same values of the loop variable in the same order, ends at the same point, and leaves every other local, temporary and upvalue as it was, for any nesting and any step. No global of the program is disturbed.",
 ["programs", "schedules"], "all numeric loops with any bounds and steps, bodies with locals, closures, breaks, nested loops and table constructors",
 "One file runs one loop; register reuse directly above the loop registers depends on the body.",
 [UP, BU], [("FORLOOP translation through a temporary global", UP), ("adjusted_jump_destination", BU)])
prop("C13", "Generic for loops call the same iterator with the same variables",
 "A generic for loop converted from Lua 5.0 calls its iterator with the same arguments, assigns the same loop variables, stops at the same time and keeps every other local, temporary and upvalue, for any number of loop variables and any nesting. Iterating over a table value directly still works as in Lua 5.0.",
 ["programs", "schedules"], "all generic loops with one or more variables over functions and tables, in any context",
 "Unit tests compare one instruction sequence for one and two variables at register 0.",
 [UP, BU], [("TFORPREP and TFORLOOP translation", UP)])
prop("C14", "Table constructors fill the same tables at any fields-per-flush",
 "A table constructor of any length produces a table with the same keys and values after conversion between any two fields-per-flush values, from Lua 5.0 and from Lua 5.1, as long as no two of its items have the same key. This includes constructors that are nested, mix list items with keyed items, contain calls, closures or logical operators, or end in a call or vararg expression. One with more batches than the SETLIST instruction of the output can number is refused.",
 ["programs", "configurations", "schedules"], "all constructors, all pairs of fields-per-flush values, all values the item expressions produce",
 "Tests build flat lists of constants of seven lengths for one pair of flush sizes.",
 [UP, CV, BU, L51], [("SETLIST repaging", UP), ("SETLIST repaging", CV), ("move_stack_accesses", L51)])
prop("C15", "Lua 5.0 variadic functions receive their extra arguments",
 "A variadic Lua 5.0 function converted to Lua 5.1 finds its fixed parameters in place and a table with all further arguments (and their number as its field n) in the local variable after them, for any number of parameters and arguments, in the main chunk and in nested functions, and its jumps still reach their targets.",
 ["programs", "inputs"], "all variadic functions, any number of fixed parameters and of passed arguments",
 "One unit test compares the prologue for zero parameters.",
 [UP, FN], [("variadic prologue", UP), ("is_variadic flag", FN)])
prop("C16", "Closures capture the same variables and nested functions keep their place",
 "Every function keeps its nested functions in order, its number of upvalues, and for each closure the same captured locals and upvalues, with or without debug information and at any nesting depth that Lua itself can load. Variables shared between closures stay shared and are closed at the same time.",
 ["programs", "inputs", "configurations"], "all function trees up to the nesting Lua supports, all capture patterns, stripped and unstripped",
 "No test has an upvalue; the only nested functions are in one file.",
 [FN, UP, CV], [("upvalue count written from the names", FN), ("closure translation", UP)])
prop("C17", "The declared stack always covers what the code uses and respects the limit",
 "If no instruction of a function went beyond its declared stack before, then after conversion none touches a register at or beyond the function's declared stack size, and that size never exceeds the output's stack limit. A function that would need more is refused with StackTooLarge naming the size it would need.",
 ["programs", "configurations"], "all functions at and around the stack limit, all limits, all translations that need extra registers",
 "Tests never approach the limit.",
 [BU, FN, L51], [("FunctionBuilder::finalize", BU), ("stack_destination", L51)])
prop("C18", "Line information follows the instructions",
 "Each instruction of a converted function carries the line of the original instruction it came from, so that errors and calls report the original line; a function stripped of line information stays stripped and keeps its code. Names of locals and upvalues and the defining lines are kept.",
 ["programs", "inputs"], "all functions with and without debug information, in every translation that adds or removes instructions",
 "Line information is all zeros in the tests and is never compared.",
 [BU, FN, UP, CV], [("line_info bookkeeping", BU), ("line info in Function", FN)])
prop("C19", "Converted code passes the checks of the Lua 5.1 loader",
 "If a chunk is as the compilers of Lua emit it and the loader of its own version accepts it, the loader of Lua 5.1 accepts the converted chunk: registers, constants, upvalues, jump targets, test-and-jump pairs, open calls and final returns are all as its byte code checker demands.",
 ["programs", "configurations"], "all functions that luac of Lua 5.0 or 5.1 can produce, all output settings",
 "Output is loaded by a real Lua only with the integration feature, for eleven files.",
 [UP, CV, BU, L51, FN], [("instruction mapping", UP), ("FunctionBuilder::finalize", BU)])
prop("C20", "A layout is accepted exactly if it is valid, and its fields are where it says",
 "An instruction layout is accepted exactly if it names each operand once, gives each a size within the documented bounds, keeps B and C adjacent and fits into 64 bits; every other specification is refused with InvalidInstructionLayout. An accepted layout places the fields from the lowest bit in the order given.",
 ["configurations"], "all sequences of four operands with all sizes",
 "Tests try about ten specifications.",
 [LAY], [("InstructionLayout::from_specification", LAY)], observe=("the result of InstructionLayout::from_specification", "the words unify writes with the layout"))
prop("C21", "Converting in steps gives the same result as converting at once",
 "With the same compile constants throughout, converting Lua 5.1 byte code to one format and the result on to a second one yields the same bytes as converting to the second format directly, if the format in between loses nothing. Converting a result again with the same settings yields it unchanged.",
 ["inputs", "configurations", "histories"], "all chains of formats and layouts for all chunks",
 "No test converts the output of a conversion.",
 ["src/lib.rs", FN, FM, ST, WR], [("unify", "src/lib.rs"), ("ByteStream and ByteWriter mirror each other", ST)])
prop("C22", "Constants keep their indices and added names collide with nothing",
 "The constants of a converted function start with all constants of the original in their order; constants are only added behind them. A temporary global that the translation introduces has a name that occurs nowhere among the function's constants and is used for one purpose only. The code accesses no other globals than those of the original, these temporaries, and `type`, `next` and `table`, which generic loops need.",
 ["programs", "inputs"], "all functions and all sets of names they use, including the names the translation would choose",
 "Unit tests check one generated constant list for one instruction.",
 ["src/function/constant.rs", UP], [("ConstantManager", "src/function/constant.rs")])
prop("C23", "A conversion depends on nothing but its arguments",
 "The same input, format and settings always give the same result, whatever was converted before, in which order, and on however many threads at the same time. A failed conversion leaves no trace in later ones.",
 ["histories", "schedules"], "all sequences and concurrent interleavings of conversions",
 "Every test makes one call on one thread.",
 ["src/lib.rs", "src/function/constant.rs", FN], [("no shared state: unify builds its stream, writer and builders per call", "src/lib.rs")])
prop("C24", "Without further settings, the constants of unmodified Lua apply",
 "Default settings describe unmodified Lua 5.0 and Lua 5.1, for reading as well as for writing: their signature, stack limit, fields per flush and instruction layout. The default format is that of the machine. Each setting that is left to its default works exactly as if it had been stated, alone or together with others that are stated.",
 ["inputs", "configurations"], "all chunks, all subsets of settings and format fields left to their defaults",
 "Tests use defaults everywhere but their files reach neither the stack limit nor, in most cases, the batch size, so that other defaults would pass as well.",
 ["src/function/instruction/settings.rs", L50, L51, FM], [("Default for Settings", L50), ("Default for Settings", L51), ("Default for Format", FM)])
prop("C25", "Build options and stored settings change nothing about a conversion",
 "A conversion has the same result whether the crate is built with or without optimisation, with or without checks for overflow, and with or without its features for printing and for serialization. Formats, settings and errors that were serialized and read back are the same as before and lead to the same results.",
 ["inputs", "configurations"], "all conversions, all builds of the crate",
 "Tests run in one build without the optional features; nothing compares builds.",
 ["src/lib.rs", FN, BU, ST, LAY, "src/error.rs", "src/function/instruction/settings.rs"], [("code under the feature debug", FN), ("derived Serialize and Deserialize", LAY)])
prop("C26", "How the input is encoded makes no difference",
 "Two chunks of the same Lua version that hold the same functions, encoded in different formats, instruction layouts or signatures that the settings describe, are converted to the same bytes by the same request, or refused with the same error.",
 ["inputs", "configurations"], "all pairs of encodings of all chunks of either version",
 "Every test file exists in one encoding only.",
 [FM, ST, LAY, "src/function/instruction/operand/mode.rs"], [("ByteStream", ST), ("InstructionLayout and operands", LAY)])
prop("C27", "The standard Lua 5.1 interpreter runs the result like the original",
 "Converted for the format and the settings of the standard Lua 5.1 interpreter, every program that luac of Lua 5.0 or 5.1 produces is loaded by that interpreter and does there what the original does: the same calls, assignments and operations in the same order with the same values, the same contents of the tables it shows, the same local variables in scope, the same results, and the same errors at the same lines, for all answers of its surroundings. Programs that assign to the globals type or next, read arg.n, use the variable of a finished generic loop, or run numeric loops over other values than numbers are excepted.",
 ["programs", "inputs", "environments"], "all programs of both versions, all environments they can run in",
 "The integration tests run eleven files that check themselves with the interpreter, without arguments and with its standard library.",
 [UP, CV, BU, L51, FN], [("instruction mapping", UP), ("FunctionBuilder", BU), ("unify", "src/lib.rs")],
 observe=("the bytes unify returns, executed by Lua 5.1 built from its own sources", ))
prop("C28", "Local variables are in scope where they were",
 "Whenever a converted function calls something, assigns a global or operates on a value that others can observe, the same local variables are in scope there as in the original, with the same names, in the same order and so in the same registers, in it and in each function that called it; a function without this information stays without it. So a debugger, an error message or debug.getlocal names the same variables as before.",
 ["programs", "inputs", "configurations"], "all functions with debug information, in every translation that adds or removes instructions",
 "No test compares local variables after a translation.",
 [FN, BU, UP, CV], [("adjust_debug_information", FN), ("order of line_info entries", BU)],
 observe=("the bytes unify returns", "debug.getlocal in the real Lua 5.1 that runs them"))
prop("C29", "A conversion takes memory for what the input holds, not for what it claims",
 "The memory that a conversion has allocated at any time, and the size of its result, are bounded by a multiple of the size of its input, whatever counts, lengths and operands the input contains. A count or length that claims more than the input holds reserves nothing, so that byte code from elsewhere cannot exhaust the memory of the program that converts it.",
 ["inputs", "configurations"], "all byte strings, all formats and settings",
 "No test looks at memory, and a reserve for a few gigabytes that is never touched passes every test.",
 [FN, ST, BU, UP], [("counts in get_instructions, get_constants, ...", FN), ("string and slice", ST), ("FunctionBuilder", BU)],
 observe=("the allocator of the program that calls unify", "the bytes unify returns"))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
