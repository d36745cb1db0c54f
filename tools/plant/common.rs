// Helpers of the demonstrations: inputs, calls of the real code, a reader for the default Lua 5.1 format, and a real Lua 5.1.
#![allow(dead_code)]
use lunify::{lua50, lua51, unify, BitWidth, Endianness, Format, InstructionLayout, LunifyError, OperandType, Settings};
use std::path::Path;

pub fn input(name: &str) -> Vec<u8> {
    let text = std::fs::read_to_string(Path::new(env!("CARGO_MANIFEST_DIR")).join(name)).unwrap();
    let text: Vec<u8> = text.bytes().filter(|b| !b.is_ascii_whitespace()).collect();
    text.chunks(2).map(|pair| u8::from_str_radix(std::str::from_utf8(pair).unwrap(), 16).unwrap()).collect()
}

pub fn format() -> Format {
    Format {
        format: 0,
        endianness: Endianness::Little,
        integer_width: BitWidth::Bit32,
        size_t_width: BitWidth::Bit64,
        instruction_width: BitWidth::Bit32,
        number_width: BitWidth::Bit64,
        is_number_integral: false,
    }
}

pub fn settings() -> Settings<'static> {
    Settings { lua50: lua50::Settings::default(), lua51: lua51::Settings::default(), output: lua51::Settings::default() }
}

pub fn convert(bytes: &[u8], settings: &Settings) -> Result<Vec<u8>, LunifyError> {
    unify(bytes, &format(), settings)
}

#[derive(Debug, Clone, PartialEq)]
pub enum Constant {
    Nil,
    Boolean(bool),
    Number(f64),
    Text(Vec<u8>),
}

#[derive(Debug, Clone, PartialEq)]
pub struct Function {
    pub source: Vec<u8>,
    pub line: i64,
    pub last: i64,
    pub bytes: [u8; 4], // upvalues, parameters, vararg, stack
    pub code: Vec<u32>,
    pub constants: Vec<Constant>,
    pub functions: Vec<Function>,
    pub lines: Vec<i64>,
    pub locals: Vec<(Vec<u8>, i64, i64)>,
    pub upvalues: Vec<Vec<u8>>,
}

pub struct Reader<'a>(pub &'a [u8]);

impl<'a> Reader<'a> {
    pub fn take(&mut self, n: usize) -> &'a [u8] {
        let (head, tail) = self.0.split_at(n);
        self.0 = tail;
        head
    }
    fn int(&mut self) -> i64 {
        i32::from_le_bytes(self.take(4).try_into().unwrap()) as i64
    }
    fn text(&mut self) -> Vec<u8> {
        let n = u64::from_le_bytes(self.take(8).try_into().unwrap()) as usize;
        self.take(n).to_vec()
    }
    pub fn function(&mut self) -> Function {
        let source = self.text();
        let line = self.int();
        let last = self.int();
        let bytes = self.take(4).try_into().unwrap();
        let n = self.int();
        let code = (0..n).map(|_| self.int() as u32).collect();
        let n = self.int();
        let constants = (0..n)
            .map(|_| match self.take(1)[0] {
                0 => Constant::Nil,
                1 => Constant::Boolean(self.take(1)[0] != 0),
                3 => Constant::Number(f64::from_le_bytes(self.take(8).try_into().unwrap())),
                4 => Constant::Text(self.text()),
                other => panic!("constant type {other}"),
            })
            .collect();
        let n = self.int();
        let functions = (0..n).map(|_| self.function()).collect();
        let n = self.int();
        let lines = (0..n).map(|_| self.int()).collect();
        let n = self.int();
        let locals = (0..n).map(|_| (self.text(), self.int(), self.int())).collect();
        let n = self.int();
        let upvalues = (0..n).map(|_| self.text()).collect();
        Function { source, line, last, bytes, code, constants, functions, lines, locals, upvalues }
    }
}

/// Reads a chunk in `format()`.
pub fn decode(chunk: &[u8]) -> Function {
    assert_eq!(&chunk[..12], b"\x1bLua\x51\0\x01\x04\x08\x04\x08\0", "header");
    let mut reader = Reader(&chunk[12..]);
    let function = reader.function();
    assert!(reader.0.is_empty(), "bytes behind the chunk");
    function
}

pub fn op(i: u32) -> u32 {
    i & 63
}
pub fn a(i: u32) -> u32 {
    i >> 6 & 255
}
pub fn c(i: u32) -> u32 {
    i >> 14 & 511
}
pub fn b(i: u32) -> u32 {
    i >> 23
}
pub fn bx(i: u32) -> u32 {
    i >> 14
}
pub fn sbx(i: u32) -> i64 {
    bx(i) as i64 - 131071
}

/// Runs a converted chunk in Lua 5.1 and returns what it logged: `log(...)` appends its arguments, `prelude` is Lua source.
#[cfg(feature = "lua")]
pub fn run(chunk: &[u8], prelude: &str) -> String {
    let lua = unsafe { mlua::Lua::unsafe_new() };
    let setup = "out = {} function log(...) local s = {} for i = 1, select('#', ...) do s[i] = tostring((select(i, ...))) end \
                 out[#out + 1] = table.concat(s, ' ') if #out > 200 then error('too much') end end";
    lua.load(setup).exec().unwrap();
    lua.load(prelude).exec().unwrap();
    let result = lua.load(chunk).set_mode(mlua::ChunkMode::Binary).into_function();
    let ended = match result {
        Ok(function) => match function.call::<_, ()>(()) {
            Ok(()) => String::new(),
            Err(error) => format!("; error: {}", error.to_string().lines().next().unwrap()),
        },
        Err(error) => format!("; not loaded: {}", error.to_string().lines().next().unwrap()),
    };
    let logged: String = lua.load("return table.concat(out, '; ')").eval().unwrap();
    logged + &ended
}

pub fn expect<T: PartialEq + std::fmt::Debug>(what: &str, found: T, expected: T) {
    if found != expected {
        eprintln!("{what}:\n  found    {found:?}\n  expected {expected:?}");
        std::process::exit(1);
    }
    println!("{what}: ok");
}
