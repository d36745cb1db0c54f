"""The planted bugs: edits of non-test code, what they need, and a demonstration against the real code."""
from encode import chunk, dialect, function, strip
from gen import CALL, G, L, N, OPEN, VALUE
from luac import compile_program

FMT = [0, 1, 4, 8, 4, 8, 0]
R = ("RETURN", 0, 1, 0)


def compiled(body, version=80, vararg=False, **more):
    return chunk(compile_program(body, version, vararg, **more), version, FMT)


def plain(version=81, fmt=FMT, dia=None, **fields):
    return chunk(function(**dict({"code": [R]}, **fields)), version, fmt, dia)


OTHER50 = [[1, 6], [4, 10], [3, 9], [2, 7]]

BUGS = []


def bug(ident, prop, edits, needs, breaks, demo, **inputs):
    BUGS.append({"id": ident, "property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo, "inputs": inputs})


# ---------------------------------------------------------------------------------------------------------------------- C01
bug("b01-capacity", "C01", [("src/function/mod.rs", """        let upvalue_count = byte_stream.integer()?;
        let mut upvalues = Vec::new();""", """        let upvalue_count = byte_stream.integer()?;
        let mut upvalues = Vec::with_capacity(upvalue_count as usize);""")],
    "a chunk whose count of upvalue names is negative or huge", "the conversion panics (capacity overflow) or aborts instead of reporting InputTooShort",
    """
fn main() {
    let mut bytes = input("in.hex");
    expect("unchanged", convert(&bytes, &settings()).is_ok(), true);
    let n = bytes.len();
    bytes[n - 4..].copy_from_slice(&[0xff; 4]);
    let result = std::panic::catch_unwind(|| convert(&bytes, &settings()));
    expect("negative count", result.ok(), Some(Err(LunifyError::InputTooShort)));
}
""", **{"in": plain(fmt=[1, 1, 4, 8, 4, 8, 0])})

# ---------------------------------------------------------------------------------------------------------------------- C02
bug("b02-width", "C02", [("src/format/mod.rs", "byte_writer.byte(self.instruction_width.into());", "byte_writer.byte(self.integer_width.into());")],
    "an output format whose integers and instructions differ in width", "the header names a width for instructions that is not the one used",
    """
fn main() {
    for (integer, instruction) in [(BitWidth::Bit32, BitWidth::Bit32), (BitWidth::Bit64, BitWidth::Bit32), (BitWidth::Bit32, BitWidth::Bit64)] {
        let wanted = Format { integer_width: integer, instruction_width: instruction, ..format() };
        let out = unify(&input("in.hex"), &wanted, &settings()).unwrap();
        expect("header", &out[7..10], &[u8::from(integer), 8, u8::from(instruction)][..]);
    }
}
""", **{"in": compiled([CALL("f")])})

# ---------------------------------------------------------------------------------------------------------------------- C03
bug("b03-equality", "C03", [("src/format/mod.rs", "#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]", "#[derive(Clone, Copy, Debug, Eq, PartialOrd, Ord, Hash)]"),
                            ("src/format/mod.rs", "impl Default for Format {", """impl PartialEq for Format {
    fn eq(&self, other: &Self) -> bool {
        (self.endianness, self.integer_width, self.size_t_width, self.instruction_width, self.number_width, self.is_number_integral)
            == (other.endianness, other.integer_width, other.size_t_width, other.instruction_width, other.number_width, other.is_number_integral)
    }
}

impl Default for Format {""")],
    "Lua 5.1 input that differs from the requested format in nothing but the format byte", "the input is passed through with the wrong format byte",
    """
fn main() {
    let bytes = input("in.hex");
    expect("same", convert(&bytes, &settings()).unwrap() == bytes, true);
    let out = unify(&bytes, &Format { format: 7, ..format() }, &settings()).unwrap();
    expect("format byte", out[5], 7);
}
""", **{"in": plain()})

# ---------------------------------------------------------------------------------------------------------------------- C04
bug("b04-last-constant", "C04", [("src/function/instruction/operand/mode.rs", "if self.0 > settings.output.get_maximum_constant_index() {",
                                 "if self.0 >= settings.output.get_maximum_constant_index() {")],
    "an operand that names the very last constant that fits (index 255 in the default layout)", "a chunk that the output can represent is refused",
    """
fn main() {
    let wanted = Format { format: 1, ..format() };
    expect("254", unify(&input("a.hex"), &wanted, &settings()).is_ok(), true);
    expect("255", unify(&input("b.hex"), &wanted, &settings()).is_ok(), true);
}
""", a=plain(code=[("ADD", 0, ("k", 254), 1), R], consts=[float(i) for i in range(256)]),
    b=plain(code=[("ADD", 0, ("k", 255), 1), R], consts=[float(i) for i in range(256)]))

# ---------------------------------------------------------------------------------------------------------------------- C05
bug("b05-empty-range", "C05", [("src/function/mod.rs", "            local_variables.push(local_variable);\n", """            // Variables without a scope are of no use to anybody.
            if local_variable.start_program_counter != local_variable.end_program_counter {
                local_variables.push(local_variable);
            }
""")],
    "a local variable whose scope is empty, as for the last statement of a block", "its debug information is dropped, so that later locals get the wrong name",
    """
fn main() {
    let out = decode(&convert(&input("in.hex"), &settings()).unwrap());
    let names: Vec<_> = out.locals.iter().map(|l| String::from_utf8(l.0.clone()).unwrap()).collect();
    expect("locals", names.join(","), "a\\0,b\\0,c\\0".to_string());
}
""", **{"in": plain(fmt=[1, 1, 4, 4, 4, 8, 0], locals=[(b"a", 0, 1), (b"b", 1, 1), (b"c", 0, 1)])})

bug("b05-needsarg", "C05", [("src/function/mod.rs", "                (instructions, constants, functions, line_info, local_variables, upvalues)\n            } else {".replace("                (", "            (").replace("            } else", "        } else"),
                             "            // Only these flags matter when a function is called.\n            is_variadic &= 3;\n\n            (instructions, constants, functions, line_info, local_variables, upvalues)\n        } else {")],
    "a Lua 5.1 function that uses the old variable arg, so that it has the flag VARARG_NEEDSARG", "arg is nil in the converted function",
    """
fn main() {
    let out = convert(&input("in.hex"), &settings()).unwrap();
    expect("flags", decode(&out).bytes[2], 7);
}
""", **{"in": plain(fmt=[1, 1, 4, 8, 4, 8, 0], vararg=7, params=0, code=[("MOVE", 1, 0, 0), R], stack=3)})

# ---------------------------------------------------------------------------------------------------------------------- C06
bug("b06-long-string", "C06", [("src/serialization/stream.rs", "let length = self.size_t()? as usize;", "let length = self.size_t()? as u16 as usize;")],
    "a string of more than 65535 bytes", "the string is cut and what follows is read from the wrong place",
    """
fn main() {
    let out = convert(&input("in.hex"), &settings()).map(|out| decode(&out).constants);
    expect("constants", out.is_ok() && out.as_ref().unwrap()[0] == Constant::Text([vec![b'x'; 70000], vec![0]].concat()), true);
}
""", **{"in": plain(fmt=[1, 1, 4, 4, 4, 8, 0], code=[("LOADK", 0, 0), R], consts=[b"x" * 70000])})

# ---------------------------------------------------------------------------------------------------------------------- C07
bug("b07-unsigned", "C07", [("src/serialization/stream.rs", """                self.format.number_width,
                self.format.endianness,
                i32,
                i64""", """                self.format.number_width,
                self.format.endianness,
                u32,
                i64""")],
    "a negative number in a format with 32-bit integral numbers", "the number becomes positive",
    """
fn main() {
    let out = decode(&convert(&input("in.hex"), &settings()).unwrap());
    expect("constants", out.constants, vec![Constant::Number(5.0), Constant::Number(-3.0)]);
}
""", **{"in": plain(fmt=[0, 1, 4, 8, 4, 4, 1], code=[("LOADK", 0, 1), R], consts=[5, -3])})

# ---------------------------------------------------------------------------------------------------------------------- C08
bug("b08-wide", "C08", [("src/function/instruction/operand/layout.rs", "let maximum_value = (1 << self.size) - 1;", "let maximum_value = 1 << self.size;")],
    "an operand that is larger than fits by exactly one", "the operand becomes zero",
    """
fn main() {
    use OperandType::*;
    let mut s = settings();
    s.output.layout = InstructionLayout::from_specification([Opcode(6), A(7), C(9), B(9)]).unwrap();
    expect("127", convert(&input("a.hex"), &s).is_ok(), true);
    expect("128", convert(&input("b.hex"), &s), Err(LunifyError::ValueTooBigForOperand));
}
""", a=plain(code=[("LOADK", 127, 0), R], consts=[1.0], stack=250), b=plain(code=[("LOADK", 128, 0), R], consts=[1.0], stack=250))

bug("b08-signed", "C08", [("src/function/instruction/operand/mod.rs", ".put((self.0 + settings.output.layout.signed_offset) as u64)",
                          ".put((self.0 + settings.lua51.layout.signed_offset) as u64)")],
    "an output layout whose B and C together are not as wide as the default", "jumps lead somewhere else",
    """
fn main() {
    use OperandType::*;
    let mut s = settings();
    s.output.layout = InstructionLayout::from_specification([Opcode(6), A(8), C(8), B(10)]).unwrap();
    let same = unify(&input("in.hex"), &Format { format: 1, ..format() }, &s).unwrap();
    let word = |out: &[u8]| u64::from_le_bytes(out[12 + 8 + 4 + 4 + 4 + 4..][..8].try_into().unwrap());
    expect("18 bits", (word(&same) as u32 >> 14) as i64 - 131071, 1);
    s.output.layout = InstructionLayout::from_specification([Opcode(6), A(8), C(16), B(16)]).unwrap();
    let wide = unify(&input("in.hex"), &Format { instruction_width: BitWidth::Bit64, ..format() }, &s).unwrap();
    expect("32 bits", (word(&wide) >> 14) as i64 - 0x7fffffff, 1);
}
""", **{"in": plain(code=[("JMP", 0, 1), ("MOVE", 0, 1, 0), R], source=None)})

# ---------------------------------------------------------------------------------------------------------------------- C09
bug("b09-opcode", "C09", [("src/function/instruction/macros.rs", "Err(crate::LunifyError::InvalidOpcode(opcode.0))", "Err(crate::LunifyError::InvalidOpcode(value & 0x3F))")],
    "an unknown opcode in a layout whose opcode is not in the lowest six bits", "the error carries another value than the opcode that was found",
    """
fn main() {
    use OperandType::*;
    let mut s = settings();
    let wanted = Format { format: 1, ..format() };
    expect("default", unify(&input("a.hex"), &wanted, &s), Err(LunifyError::InvalidOpcode(63)));
    s.lua51.layout = InstructionLayout::from_specification([A(7), Opcode(7), C(9), B(9)]).unwrap();
    expect("other", unify(&input("b.hex"), &wanted, &s), Err(LunifyError::InvalidOpcode(100)));
}
""", a=plain(code=[(63, 0, 0, 0), R]), b=plain(code=[(100, 0, 0, 0), R], dia=dialect(81, layout=[[2, 7], [1, 7], [4, 9], [3, 9]])))

bug("b09-sizes", "C09", [("src/format/mod.rs", "settings.lua50.layout.b.size as u8,", "settings.lua50.layout.bx.size as u8 - settings.lua50.layout.b.size as u8,"),
                         ("src/format/mod.rs", "settings.lua50.layout.c.size as u8,", "settings.lua50.layout.bx.size as u8 - settings.lua50.layout.c.size as u8,")],
    "a Lua 5.0 layout whose B and C differ in size", "a chunk with the layout of the settings is refused, and one with B and C exchanged is read as if it were right",
    """
fn main() {
    use OperandType::*;
    let mut s = settings();
    expect("default", convert(&input("a.hex"), &s).is_ok(), true);
    s.lua50.layout = InstructionLayout::from_specification([Opcode(6), C(8), B(10), A(8)]).unwrap();
    expect("settings", convert(&input("b.hex"), &s).is_ok(), true);
    expect("exchanged", convert(&input("c.hex"), &s), Err(LunifyError::UnsupportedInstructionFormat([6, 8, 8, 10])));
}
""", a=plain(80), b=plain(80, dia=dialect(80, layout=[[1, 6], [4, 8], [3, 10], [2, 8]])), c=plain(80, dia=dialect(80, layout=[[1, 6], [4, 10], [3, 8], [2, 8]])))

# ---------------------------------------------------------------------------------------------------------------------- C10
bug("b10-padding", "C10", [("src/serialization/stream.rs", "        self.offset >= self.data.len()\n", """        // Files are sometimes padded to full words.
        self.offset >= self.data.len() || (self.offset % 8 != 0 && self.data[self.offset..].iter().all(|byte| *byte == 0) && self.data.len() % 8 == 0)
""")],
    "zero bytes behind a chunk that fill it up to a multiple of eight bytes", "trailing bytes are accepted",
    """
fn main() {
    let mut bytes = input("in.hex");
    expect("whole", convert(&bytes, &settings()).is_ok(), true);
    for _ in 0..16 {
        bytes.push(0);
        expect("longer", convert(&bytes, &settings()), Err(LunifyError::InputTooLong));
    }
}
""", **{"in": compiled([CALL("f")])})

# ---------------------------------------------------------------------------------------------------------------------- C11
# ---------------------------------------------------------------------------------------------------------------------- C12
bug("b12-position", "C12", [("src/function/upcast.rs", "let position = builder.adjusted_jump_destination(mode.0)?;",
                            "let position = (builder.get_program_counter() as i64 - 2 + mode.0 + 1).max(0) as usize;")],
    "a numeric loop whose body is lengthened by the translation, such as one with another loop inside", "the loop restores its variable at the wrong place",
    """
fn main() {
    let out = convert(&input("in.hex"), &settings()).unwrap();
    expect("loops", run(&out, "function f(i, j) log(i, j) end"), "1 1; 1 2; 2 1; 2 2".to_string());
}
""", **{"in": compiled([("for", "i", N(1), N(2), None, [("for", "j", N(1), N(2), None, [CALL("f", L("i"), L("j"))])])])})

# ---------------------------------------------------------------------------------------------------------------------- C13
bug("b13-prefix", "C13", [("src/function/constant.rs", "matches!(constant, Constant::String(string) if string == zero_terminated.as_str());",
                          "matches!(constant, Constant::String(string) if string.starts_with(constant_str));")],
    "a function with a generic loop and a constant that begins with type, table or next, such as nextItem", "the loop calls another global than next",
    """
fn main() {
    let out = convert(&input("in.hex"), &settings()).unwrap();
    expect("loop", run(&out, "t = {7, 8} function nextItem() log('nextItem') end function f(k, v) log(k, v) end"), "nextItem; 1 7; 2 8".to_string());
}
""", **{"in": compiled([CALL("nextItem"), ("forin", ["k", "v"], [G("t")], [CALL("f", L("k"), L("v"))])])})

bug("b13-nil", "C13", [("src/function/constant.rs", "matches!(constant, Constant::Nil);", "matches!(constant, Constant::Nil | Constant::Boolean(false));")],
    "a generic loop with two variables in a function that has the constant false and not nil", "the loop goes on when its variable is nil",
    """
fn main() {
    let out = convert(&input("in.hex"), &settings()).unwrap();
    expect("loop", run(&out, "n = 0 function it() n = n + 1 if n < 3 then return n, n end end function f(k, v) log(k, v) end"), "1 1; 2 2".to_string());
}
""", **{"in": chunk((lambda fn: dict(fn, consts=list(fn["consts"]) + [False]))(
        compile_program([("forin", ["k", "v"], [G("it")], [CALL("f", L("k"), L("v"))])], 80)), 80, FMT)})

# ---------------------------------------------------------------------------------------------------------------------- C14
bug("b14-length", "C14", [("src/function/instruction/lua51.rs", "    Length(BC<Register, Unused>, true),", "    Length(BC<Generic, Unused>, true),")],
    "a Lua 5.1 constructor whose elements are moved to another batch and contain the length of a value in a register", "the length of another register is taken",
    """
fn main() {
    let mut s = settings();
    s.output.fields_per_flush = 60;
    let out = convert(&input("in.hex"), &s).unwrap();
    expect("items", run(&out, "g = {1, 2, 3} function f(t) log(#t, t[50], t[51], t[52]) end"), "52 49 3 50".to_string());
}
""", **{"in": compiled([("local", ["t"], [("table", [("item", N(i)) for i in range(50)] + [("item", ("LEN", G("g"))), ("item", N(50))])]), CALL("f", L("t"))], 81)})

bug("b14-not", "C14", [("src/function/instruction/lua51.rs", "            Instruction::Not { a, .. } => Some(a..a),", "            Instruction::Not { .. } => None,")],
    "a constructor whose batches are split in two right after an element made by not", "the batch is stored before the element is there",
    """
fn main() {
    let mut s = settings();
    s.lua50.fields_per_flush = 64;
    let out = convert(&input("in.hex"), &s).unwrap();
    expect("items", run(&out, "g = false function f(t) log(#t, t[48], t[49], t[50], t[51]) end"), "60 47 48 true 50".to_string());
}
""", **{"in": compiled([("local", ["t"], [("table", [("item", N(i)) for i in range(49)] + [("item", ("NOT", G("g")))] + [("item", N(i)) for i in range(50, 60)])]),
                        CALL("f", L("t"))], fpf=64)})

bug("b14-forprep", "C14", [("src/function/builder.rs", "Instruction::Jump { mode, .. } | Instruction::ForLoop { mode, .. } | Instruction::ForPrep { mode, .. } if !is_fixed => {",
                            "Instruction::Jump { mode, .. } | Instruction::ForLoop { mode, .. } if !is_fixed => {")],
    "a Lua 5.1 numeric loop around a constructor that needs more or fewer batches after conversion", "the jump into the loop misses its end",
    """
fn main() {
    let mut s = settings();
    s.lua51.fields_per_flush = 64;
    let out = convert(&input("in.hex"), &s).unwrap();
    expect("items", run(&out, "function f(t) log(#t) end"), "60; 60".to_string());
}
""", **{"in": compiled([("for", "i", N(1), N(2), None, [CALL("f", ("table", [("item", N(i)) for i in range(60)]))])], 81, fpf=64)})

# ---------------------------------------------------------------------------------------------------------------------- C15
bug("b15-main", "C15", [("src/function/mod.rs", """                parameter_count,
                is_variadic != 0,""", """                parameter_count,
                // The main chunk has no arguments.
                is_variadic != 0 && line_defined != 0,""")],
    "a main chunk that is variadic", "the variable arg of the main chunk stays nil",
    """
fn main() {
    let out = convert(&input("in.hex"), &settings()).unwrap();
    expect("arg", run(&out, "function f(x) log(type(x)) end"), "table".to_string());
}
""", **{"in": compiled([CALL("f", L("arg"))], 80, True)})

# ---------------------------------------------------------------------------------------------------------------------- C16
bug("b16-upvalue", "C16", [("src/function/instruction/lua51.rs", "    GetUpValue(BC<Generic, Unused>, true),", "    GetUpValue(BC<Register, Unused>, true),"),
                           ("src/function/instruction/lua50.rs", "    GetUpValue(BC<Generic, Unused>, true),", "    GetUpValue(BC<super::Register, Unused>, true),")],
    "a constructor whose batches change, with an element that is an upvalue, or a closure capturing one, of a high index", "another upvalue is captured",
    """
fn main() {
    let out = convert(&input("in.hex"), &settings()).unwrap();
    let prelude = "function f(t) log(#t, t[33](), t[34](), t[35]()) end";
    expect("captured", run(&out, prelude), "36 11 13 15".to_string());
}
""", **{"in": compiled([("local", [f"v{i}"], [N(10 + i)]) for i in range(6)] + [("local", ["q"], [("closure", {"params": [], "vararg": False, "body": [
        ("assign", L("v0"), ("bin", "ADD", L("v0"), N(0))), ("assign", L("v1"), L("v1")), ("assign", L("v2"), L("v2")), ("assign", L("v3"), L("v3")),
        ("assign", L("v4"), L("v4")), ("assign", L("v5"), L("v5")),
        ("local", ["t"], [("table", [("item", N(i)) for i in range(32)] + [
            ("item", ("closure", {"params": [], "vararg": False, "body": [("return", [L(f"v{i}")])]})) for i in (1, 3, 5)] + [("item", N(1))])]),
        CALL("f", L("t"))]})]), ("call", ("call", L("q"), [], "one"))])})

# ---------------------------------------------------------------------------------------------------------------------- C17
bug("b17-self", "C17", [("src/function/instruction/lua51.rs", "Instruction::_Self { a, .. } => Some(a..a + 1),", "Instruction::_Self { a, .. } => Some(a..a),")],
    "a constructor whose last batch is moved up and ends in a method call without arguments, at the top of the stack", "the declared stack misses one register",
    """
fn main() {
    let mut s = settings();
    s.output.fields_per_flush = 60;
    let out = decode(&convert(&input("in.hex"), &s).unwrap());
    let top = out.code.iter().filter(|&&i| op(i) == 11).map(|&i| a(i) + 2).max().unwrap();
    expect("stack", out.bytes[3] as u32 >= top, true);
}
""", **{"in": compiled([("local", ["t"], [("table", [("item", N(i)) for i in range(50)] + [("item", ("call", ("method", G("g"), "m"), [], "one"))])])], 81)})

# ---------------------------------------------------------------------------------------------------------------------- C18
bug("b18-removed", "C18", [("src/function/builder.rs", "        self.line_info.remove(index);\n", "        self.line_info.pop();\n")],
    "a constructor of more than one batch over several lines, converted to a larger fields-per-flush", "the items behind the border carry the line of the instruction before",
    """
fn main() {
    let out = convert(&input("in.hex"), &settings()).unwrap();
    let found = run(&out, "function f() log(debug.getinfo(2, 'l').currentline) end");
    expect("lines", found, "4".to_string());
}
""", **{"in": chunk(dict(compile_program([("local", ["t"], [("table", [("item", N(i)) for i in range(32)] + [("item", VALUE("f")), ("item", N(1))])])], 80),
                         lines=[1] * 33 + [2, 3, 4, 5, 5, 6]), 80, FMT)})

# ---------------------------------------------------------------------------------------------------------------------- C19
bug("b19-concat", "C19", [("src/function/instruction/lua51.rs", "    Concatinate(BC<Register, Register>, true),", "    Concatinate(BC<Register, Generic>, true),"),
                          ("src/function/instruction/lua50.rs", "    Concatinate(BC<Register, Register>, true),", "    Concatinate(BC<Register, Generic>, true),"),
                          ("src/function/upcast.rs", "lua50::Instruction::Concatinate { a, mode } => builder.instruction(lua51::Instruction::Concatinate { a, mode }),",
                           "lua50::Instruction::Concatinate { a, mode: BC(b, c) } => builder.instruction(lua51::Instruction::Concatinate { a, mode: BC(b, c) }),")],
    "a constructor whose batch is moved up and has an element made by concatenation", "the operation ends below the register it begins at",
    """
fn main() {
    let out = convert(&input("in.hex"), &settings()).unwrap();
    expect("items", run(&out, "g = 'x' function f(t) log(#t, t[33], t[34], t[35]) end"), "35 32 xy 34".to_string());
}
""", **{"in": compiled([("local", ["t"], [("table", [("item", N(i)) for i in range(33)] + [("item", ("concat", [G("g"), ("str", "y")])), ("item", N(34))])]),
                        CALL("f", L("t"))])})

# ---------------------------------------------------------------------------------------------------------------------- C20
bug("b20-adjacent", "C20", [("src/function/instruction/operand/layout.rs", "if c.position + c.size != b.position && b.position + b.size != c.position {",
                            "if u64::max(b.position, c.position) - u64::min(b.position, c.position) != u64::min(b.size, c.size) {")],
    "a layout whose wider one of B and C comes first", "a valid layout is refused",
    """
fn main() {
    use OperandType::*;
    for (b, c) in [(9, 9), (8, 10), (10, 8)] {
        expect("B C", InstructionLayout::from_specification([Opcode(6), B(b), C(c), A(8)]).is_ok(), true);
        expect("C B", InstructionLayout::from_specification([Opcode(6), C(c), B(b), A(8)]).is_ok(), true);
        expect("apart", InstructionLayout::from_specification([C(c), Opcode(6), B(b), A(8)]), Err(LunifyError::InvalidInstructionLayout));
    }
}
""")

bug("b20-bound", "C20", [("src/function/instruction/operand/layout.rs", "if !(8..32).contains(&size) || c.is_some() {", "if !(8..=32).contains(&size) || c.is_some() {")],
    "a layout with an operand of 32 bits", "a layout outside the documented bounds is accepted",
    """
fn main() {
    use OperandType::*;
    expect("31", InstructionLayout::from_specification([Opcode(6), A(8), B(9), C(31)]).is_ok(), true);
    expect("32", InstructionLayout::from_specification([Opcode(6), A(8), B(9), C(32)]), Err(LunifyError::InvalidInstructionLayout));
}
""")

# ---------------------------------------------------------------------------------------------------------------------- C21
bug("b21-negative", "C21", [("src/serialization/stream.rs", "Ok(from_slice!(self, self.format.integer_width, self.format.endianness, i32, i64))",
                            "Ok(from_slice!(self, self.format.integer_width, self.format.endianness, u32, i64))")],
    "a negative line number that goes through a format with 32-bit integers", "it comes out different than when converted directly",
    """
fn main() {
    let bytes = input("in.hex");
    let wide = Format { integer_width: BitWidth::Bit64, ..format() };
    let narrow = unify(&bytes, &format(), &settings()).unwrap();
    let direct = unify(&bytes, &Format { format: 3, ..wide }, &settings()).unwrap();
    let steps = unify(&narrow, &Format { format: 3, ..wide }, &settings()).unwrap();
    expect("in steps", steps == direct, true);
}
""", **{"in": plain(fmt=[0, 1, 8, 8, 4, 8, 0], line=-1, last=5)})

# ---------------------------------------------------------------------------------------------------------------------- C22
bug("b22-last", "C22", [("src/function/constant.rs", "if !self.constants.contains(&constant) {", "if self.constants.last() != Some(&constant) {")],
    "a function with constants named like the temporaries, in front of another constant", "a temporary global collides with a global of the program",
    """
fn main() {
    let out = decode(&convert(&input("in.hex"), &settings()).unwrap());
    let mut texts: Vec<_> = out.constants.iter().collect();
    let all = texts.len();
    texts.dedup();
    texts.sort_by_key(|c| format!("{c:?}"));
    texts.dedup();
    expect("distinct constants", texts.len(), all);
}
""", **{"in": chunk(dict(compile_program([("for", "i", N(1), N(2), None, [CALL("f", L("i"))])], 80), consts=[
        1.0, 2.0, b"f"] + [b"__%%lunify%%__temp%d_%d" % (i, 0) for i in range(12)] + [b"g"]), 80, FMT)})

# ---------------------------------------------------------------------------------------------------------------------- C23
bug("b23-counter", "C23", [("src/function/constant.rs", "        let mut index = 0;\n", "        static COLLISIONS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        let mut index = 0;\n"),
                           ("src/function/constant.rs", "            index += 1;\n", "            // Names that collided before will collide again.\n            index = COLLISIONS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) + 1;\n")],
    "a name of a temporary that is taken, twice in one process", "the second conversion gives another result",
    """
fn main() {
    let bytes = input("in.hex");
    let first = convert(&bytes, &settings()).unwrap();
    for _ in 0..3 {
        expect("again", convert(&bytes, &settings()).unwrap() == first, true);
    }
}
""", **{"in": chunk(dict(compile_program([("for", "i", N(1), N(2), None, [CALL("f", L("i"))])], 80), consts=[
        1.0, 2.0, b"f"] + [b"__%%lunify%%__temp%d_%d" % (i, 0) for i in range(12)]), 80, FMT)})

bug("b23-once", "C23", [("src/function/instruction/lua51.rs", "        1 << (self.layout.b.size - 1)\n",
                         "        // The layout rarely changes.\n        static BIT: std::sync::OnceLock<u64> = std::sync::OnceLock::new();\n        *BIT.get_or_init(|| 1 << (self.layout.b.size - 1))\n")],
    "two conversions with different instruction layouts in one process", "the second one uses the constant bit of the first",
    """
fn main() {
    use OperandType::*;
    let bytes = input("in.hex");
    let mut narrow = settings();
    narrow.output.layout = InstructionLayout::from_specification([Opcode(6), A(8), C(10), B(8)]).unwrap();
    if std::env::args().nth(1).is_some() {
        print!("{:?}", convert(&bytes, &narrow));
        return;
    }
    let alone = std::process::Command::new(std::env::current_exe().unwrap()).arg("alone").output().unwrap().stdout;
    let _ = convert(&bytes, &settings());
    expect("after another", format!("{:?}", convert(&bytes, &narrow)), String::from_utf8(alone).unwrap());
}
""", **{"in": compiled([("local", ["x"], [("bin", "ADD", N(2), N(3))])])})

# ---------------------------------------------------------------------------------------------------------------------- C10
bug("b10-negative", "C10", [("src/function/mod.rs", "for _index in 0..local_variable_count as usize {", "for _index in 0..local_variable_count.max(0) as usize {")],
    "a chunk whose number of local variables is negative", "a corrupt chunk is accepted, as if it had no local variables",
    """
fn main() {
    let bytes = input("in.hex");
    expect("unchanged", convert(&bytes, &settings()).is_ok(), true);
    let mut corrupt = bytes.clone();
    // behind the code, the constants, and the functions come the lines, local variables, and upvalues of the last function
    let n = corrupt.len();
    corrupt[n - 8..n - 4].copy_from_slice(&[0xff; 4]);
    expect("negative", convert(&corrupt, &settings()), Err(LunifyError::InputTooShort));
}
""", **{"in": plain(fmt=[1, 1, 4, 8, 4, 8, 0])})

# ---------------------------------------------------------------------------------------------------------------------- C11
bug("b11-removed", "C11", [("src/function/builder.rs", "            steps += context.line_weight - 1;", "            steps += context.line_weight.max(0) - 1;")],
    "a branch around a constructor of more than 32 elements, of which one SETLIST goes away", "the jump lands behind its target, and skips an instruction of what follows",
    """
fn main() {
    let out = convert(&input("in.hex"), &settings()).unwrap();
    expect("calls", run(&out, "t = {1, 2} c = 0 function f(x) log('f', type(x)) end"), "f number; f string".to_string());
}
""", **{"in": compiled([("if", [(G("absent"), [CALL("f", ("table", [("item", N(i)) for i in range(40)]))])], None),
                         ("assign", G("x"), N(3)), CALL("f", G("x")), CALL("f", ("str", "s"))])})

# ---------------------------------------------------------------------------------------------------------------------- C14
bug("b14-compare", "C14", [("src/function/instruction/lua51.rs", "    LessEquals(BC<ConstantRegister, ConstantRegister>, false),", "    LessEquals(BC<ConstantRegister, ConstantRegister>, true),")],
    "a constructor in the very first register, with a comparison in a batch that moves", "the comparison is always false",
    """
fn main() {
    let out = convert(&input("in.hex"), &settings()).unwrap();
    expect("items", run(&out, "a, b = 1, 2 function f(t) log(#t, t[33], t[34]) end"), "35 true 7".to_string());
}
""", **{"in": compiled([("local", ["t"], [("table", [("item", N(i)) for i in range(32)] + [("item", ("cmp", "LE", G("a"), G("b"), True)), ("item", N(7)), ("item", N(8))])]),
                         CALL("f", L("t"))])})

# ---------------------------------------------------------------------------------------------------------------------- C16
bug("b16-count", "C16", [("src/function/mod.rs", "let parameter_count = byte_stream.byte()?;", "let (upvalue_count, parameter_count) = (upvalue_count.min(48), byte_stream.byte()?);")],
    "a function that captures more than 48 variables", "the function is said to capture fewer variables than its code uses",
    """
fn main() {
    let out = unify(&input("in.hex"), &Format { format: 1, ..format() }, &settings()).unwrap();
    let source = 8 + "@t\\0".len();
    expect("upvalues", out[12 + source + 4 + 4], 52);
}
""", **{"in": plain(nups=52)})

# ---------------------------------------------------------------------------------------------------------------------- C18
bug("b18-locals", "C18", [("src/function/mod.rs", "        Ok(local_variables)\n    }\n\n    fn get_line_info", """        // A function has at most 200 local variables.
        local_variables.truncate(200);

        Ok(local_variables)
    }

    fn get_line_info""")],
    "a function with more than 200 local variables over time, in blocks of their own", "the names of the others are lost",
    """
fn main() {
    let out = decode(&convert(&input("in.hex"), &settings()).unwrap());
    expect("local variables", out.locals.len(), 260);
}
""", **{"in": chunk(function(code=[R] * 5, stack=5, locals=[(b"v%d" % i, 0, 1) for i in range(260)]), 80, FMT)})

# ---------------------------------------------------------------------------------------------------------------------- C25
bug("b25-stored", "C25", [("src/function/instruction/operand/layout.rs", "    pub(crate) bit_mask: u64,\n}", "    // Follows from the size.\n    #[cfg_attr(feature = \"serde\", serde(skip))]\n    pub(crate) bit_mask: u64,\n}")],
    "settings that were stored with serde and read back", "every operand is read as zero",
    """
fn main() {
    let bytes = input("in.hex");
    // JSON cannot lend out the escape character of the signature
    let mut plain = settings();
    (plain.lua50.binary_signature, plain.lua51.binary_signature, plain.output.binary_signature) = ("", "", "");
    let text = serde_json::to_string(&plain).unwrap();
    let mut stored: Settings = serde_json::from_str(&text).unwrap();
    let signature = settings().output.binary_signature;
    (stored.lua50.binary_signature, stored.lua51.binary_signature, stored.output.binary_signature) = (signature, signature, signature);
    expect("converted", convert(&bytes, &stored) == convert(&bytes, &settings()), true);
}
""", **{"in": compiled([("local", ["x"], [N(3)]), CALL("f", L("x"), N(4))])})

bug("b25-release", "C25", [("src/function/constant.rs", "            if !self.constants.contains(&constant) {", "            // Constants seldom look like this.\n            if index == 0 && !cfg!(debug_assertions) || !self.constants.contains(&constant) {")],
    "a release build, and a chunk with a constant that is named like a temporary", "the temporary global is also one of the program's",
    """
// release
fn main() {
    let out = decode(&convert(&input("in.hex"), &settings()).unwrap());
    let mut texts: Vec<_> = out.constants.iter().map(|c| format!("{c:?}")).collect();
    let all = texts.len();
    texts.sort();
    texts.dedup();
    expect("distinct constants", texts.len(), all);
}
""", **{"in": chunk(dict(compile_program([("for", "i", N(1), N(2), None, [CALL("f", L("i"))])], 80), consts=[
        1.0, 2.0, b"f"] + [b"__%%lunify%%__temp%d_%d" % (i, 0) for i in range(12)]), 80, FMT)})

# ---------------------------------------------------------------------------------------------------------------------- C26
bug("b26-jump", "C26", [("src/function/instruction/operand/mod.rs", "    fn get(value: u64, _settings: &Settings, layout: &InstructionLayout) -> Self {\n        Self(layout.bx.get(value) as i64 - layout.signed_offset)",
                         "    fn get(value: u64, settings: &Settings, layout: &InstructionLayout) -> Self {\n        Self(layout.bx.get(value) as i64 - settings.lua51.layout.signed_offset)")],
    "Lua 5.0 input in a layout whose jumps have another width than those of Lua 5.1", "all jumps go elsewhere",
    """
fn main() {
    use OperandType::*;
    let bytes = input("in.hex");
    let plain = convert(&bytes, &settings()).unwrap();
    // the same instructions in a wider layout
    let mut wide = settings();
    wide.lua50.layout = InstructionLayout::from_specification([Opcode(6), C(9), B(9), A(8)]).unwrap();
    expect("same layout", convert(&bytes, &wide).unwrap() == plain, true);
    wide.lua50.layout = InstructionLayout::from_specification([Opcode(6), C(10), B(9), A(7)]).unwrap();
    expect("other layout", convert(&input("other.hex"), &wide).unwrap() == plain, true);
}
""", **{"in": compiled([("if", [(G("x"), [CALL("f")])], [CALL("g")])]),
        "other": chunk(compile_program([("if", [(G("x"), [CALL("f")])], [CALL("g")])], 80), 80, FMT, dialect(80, layout=OTHER50))})

# ---------------------------------------------------------------------------------------------------------------------- C27
bug("b27-compare", "C27", [("src/function/instruction/lua51.rs", "    LessThan(BC<ConstantRegister, ConstantRegister>, false),", "    LessThan(BC<ConstantRegister, ConstantRegister>, true),")],
    "a constructor in the very first register, with a comparison in a batch that moves", "the comparison is always false",
    """
fn main() {
    let out = convert(&input("in.hex"), &settings()).unwrap();
    expect("items", run(&out, "a, b = 1, 2 function f(t) log(#t, t[34], t[35]) end"), "35 1 8".to_string());
}
""", **{"in": compiled([("local", ["t"], [("table", [("item", N(i)) for i in range(33)] + [("item", ("and", ("cmp", "LT", G("a"), G("b"), True), N(1))), ("item", N(8))])]),
                         CALL("f", L("t"))])})

# ---------------------------------------------------------------------------------------------------------------------- C28
NAMES = "function f() local names = {} for i = 1, 20 do names[i] = debug.getlocal(2, i) if names[i] == '(*temporary)' then names[i] = nil break end end log(unpack(names)) end"
bug("b28-arg", "C28", [("src/function/mod.rs", "            local_variables.push(local_variable);", """            // The variable `arg` of a variadic function is set up by the function itself.
            if _index == 0 || local_variable.name.trim_end_matches('\\0') != "arg" {
                local_variables.push(local_variable);
            }""")],
    "a variadic function of Lua 5.0 with parameters and other local variables", "the names of all variables after arg are off by one",
    """
fn main() {
    let out = convert(&input("in.hex"), &settings()).unwrap();
    expect("names", run(&out, "%s"), "a arg x".to_string());
}
""" % NAMES, **{"in": compiled([("local", ["g"], [("closure", {"params": ["a"], "vararg": True, "body": [("local", ["x"], [N(1)]), CALL("f", L("x"))]})]),
                         ("call", ("call", L("g"), [N(1)], "one"))])})
bug("b28-shadow", "C28", [("src/function/mod.rs", "            local_variables.push(local_variable);", """            // A name means one variable in a block.
            let known = |other: &LocalVariable| {
                other.name == local_variable.name && other.end_program_counter == local_variable.end_program_counter && !other.name.starts_with('(')
            };
            if !local_variables.iter().any(known) {
                local_variables.push(local_variable);
            }""")],
    "two local variables of the same name in one block", "the names of the variables after the second one are off by one",
    """
fn main() {
    let out = convert(&input("in.hex"), &settings()).unwrap();
    expect("names", run(&out, "%s"), "x x y".to_string());
}
""" % NAMES, **{"in": compiled([("local", ["x"], [N(1)]), ("local", ["x"], [N(2)]), ("local", ["y"], [L("x")]), CALL("f", L("y"))])})

# ---------------------------------------------------------------------------------------------------------------------- C29
MEMORY = """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};

struct Largest;
static LARGEST: AtomicUsize = AtomicUsize::new(0);

unsafe impl GlobalAlloc for Largest {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        LARGEST.fetch_max(layout.size(), Ordering::Relaxed);
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, pointer: *mut u8, layout: Layout) {
        System.dealloc(pointer, layout)
    }
}

#[global_allocator]
static ALLOCATOR: Largest = Largest;

fn main() {
    let mut bytes = input("in.hex");
    expect("unchanged", convert(&bytes, &settings()).is_ok(), true);
    let at = bytes.len() - %d;
    bytes[at..at + 4].copy_from_slice(&0x7000_0000u32.to_le_bytes());
    LARGEST.store(0, Ordering::Relaxed);
    expect("refused", convert(&bytes, &settings()), Err(LunifyError::InputTooShort));
    expect("no more than a megabyte at once", LARGEST.load(Ordering::Relaxed) < 1 << 20, true);
}
"""
bug("b29-lines", "C29", [("src/function/mod.rs", "        let mut line_info = Vec::new();", "        let mut line_info = Vec::with_capacity(line_info_count.clamp(0, 1 << 22) as usize);")],
    "byte code that claims to have millions of lines", "memory for them is reserved before anything is read",
    MEMORY % 12, **{"in": plain(fmt=[1, 1, 4, 8, 4, 8, 0], lines=[])})
bug("b29-functions", "C29", [("src/function/mod.rs", "        let mut functions = Vec::new();", """        // There is nothing to reserve for functions without nested ones.
        let mut functions = Vec::with_capacity(match function_count {
            1..=0xFFFF => function_count as usize,
            0x10000.. => 0x10000,
            _ => 0,
        });""")],
    "byte code that claims to have thousands of nested functions", "memory for them is reserved before anything is read",
    MEMORY % 16, **{"in": plain(fmt=[1, 1, 4, 8, 4, 8, 0], lines=[])})
