"""Writes Lua 5.0 and 5.1 chunks: functions as plain dictionaries, encoded under any format, layout and settings.

Nothing here is trusted by the checks: the specification reads the bytes on its own.
"""
import struct

OPS50 = ["MOVE", "LOADK", "LOADBOOL", "LOADNIL", "GETUPVAL", "GETGLOBAL", "GETTABLE", "SETGLOBAL", "SETUPVAL", "SETTABLE",
         "NEWTABLE", "SELF", "ADD", "SUB", "MUL", "DIV", "POW", "UNM", "NOT", "CONCAT", "JMP", "EQ", "LT", "LE", "TEST",
         "CALL", "TAILCALL", "RETURN", "FORLOOP", "TFORLOOP", "TFORPREP", "SETLIST", "SETLISTO", "CLOSE", "CLOSURE"]
OPS51 = ["MOVE", "LOADK", "LOADBOOL", "LOADNIL", "GETUPVAL", "GETGLOBAL", "GETTABLE", "SETGLOBAL", "SETUPVAL", "SETTABLE",
         "NEWTABLE", "SELF", "ADD", "SUB", "MUL", "DIV", "MOD", "POW", "UNM", "NOT", "LEN", "CONCAT", "JMP", "EQ", "LT",
         "LE", "TEST", "TESTSET", "CALL", "TAILCALL", "RETURN", "FORLOOP", "FORPREP", "TFORLOOP", "SETLIST", "CLOSE",
         "CLOSURE", "VARARG"]
NUM = {n: {op: i for i, op in enumerate(ops)} for n, ops in ((80, OPS50), (81, OPS51))}
WIDE = {80: {"LOADK", "GETGLOBAL", "SETGLOBAL", "SETLIST", "SETLISTO", "CLOSURE"},
        81: {"LOADK", "GETGLOBAL", "SETGLOBAL", "CLOSURE"}}
SIGNED = {"JMP", "FORLOOP", "FORPREP", "TFORPREP"}

LAYOUT50 = [[1, 6], [4, 9], [3, 9], [2, 8]]
LAYOUT51 = [[1, 6], [2, 8], [4, 9], [3, 9]]
SIGNATURE = list(b"\x1bLua")


def dialect(version=81, limit=250, fpf=None, sig=None, layout=None):
    return {"limit": limit, "fpf": fpf or (32 if version == 80 else 50), "sig": list(sig or SIGNATURE),
            "layout": [list(x) for x in (layout or (LAYOUT50 if version == 80 else LAYOUT51))]}


def default_settings(lua50=None, lua51=None, output=None):
    return [lua50 or dialect(80), lua51 or dialect(81), output or dialect(81)]


# tag, little, int, size_t, instruction, number, integral
DEFAULT_FORMAT = [0, 1, 4, 8, 4, 8, 0]


class Unencodable(Exception):
    pass


class Writer:
    def __init__(self, fmt, version, dia):
        self.f, self.version, self.d = fmt, version, dia
        self.out = bytearray()
        self.order = "little" if fmt[1] else "big"
        sizes = {k: s for k, s in dia["layout"]}
        pos, at = {}, 0
        for k, s in dia["layout"]:
            pos[k] = at
            at += s
        self.sizes, self.pos = sizes, pos
        self.xsize = sizes[3] + sizes[4]
        self.xpos = min(pos[3], pos[4])

    def byte(self, v):
        self.out.append(v & 255)

    def word(self, v, width):
        self.out += (v & ((1 << (8 * width)) - 1)).to_bytes(width, self.order)

    def integer(self, v):
        self.word(v, self.f[2])

    def string(self, s):
        """None is the absent string; otherwise the text without its final zero."""
        if s is None:
            self.word(0, self.f[3])
            return
        if isinstance(s, Raw):
            data = s.data
        else:
            data = (s.encode("latin-1") if isinstance(s, str) else bytes(s)) + b"\0"
        self.word(len(data), self.f[3])
        self.out += data

    def number(self, v):
        if isinstance(v, Raw):
            self.out += v.data if self.f[1] else v.data[::-1]
        elif self.f[6]:
            self.word(int(v), self.f[5])
        else:
            data = struct.pack("<f" if self.f[5] == 4 else "<d", v)
            self.out += data if self.f[1] else data[::-1]

    def field(self, value, size, what):
        if value < 0 or value >= 1 << size:
            raise Unencodable(f"{what} {value} in {size} bits")
        return value

    def rk(self, v, size):
        if isinstance(v, tuple):
            index = v[1]
            v = index + self.d["limit"] if self.version == 80 else index | 1 << (self.sizes[3] - 1)
            if self.version == 81 and index >= 1 << (self.sizes[3] - 1):
                raise Unencodable("constant")
        return self.field(v, size, "operand")

    def instruction(self, ins):
        op = ins[0]
        if op == "RAW":
            self.word(ins[1], self.f[4])
            return
        s, p = self.sizes, self.pos
        w = self.field(NUM[self.version][op] if isinstance(op, str) else op, s[1], "opcode") << p[1]
        w |= self.field(ins[1], s[2], "A") << p[2]
        if op in WIDE[self.version]:
            w |= self.field(ins[2], self.xsize, "Bx") << self.xpos
        elif op in SIGNED:
            w |= self.field(ins[2] + (1 << (self.xsize - 1)) - 1, self.xsize, "sBx") << self.xpos
        else:
            w |= self.rk(ins[2], s[3]) << p[3]
            w |= self.rk(ins[3], s[4]) << p[4]
        if w >= 1 << (8 * self.f[4]):
            raise Unencodable("word")
        self.word(w, self.f[4])

    def code(self, fn):
        self.integer(fn.get("ncode", len(fn["code"])))
        for ins in fn["code"]:
            self.instruction(ins)

    def constants(self, fn):
        self.integer(fn.get("nconsts", len(fn["consts"])))
        for c in fn["consts"]:
            if c is None:
                self.byte(0)
            elif isinstance(c, bool):
                self.byte(1)
                self.byte(1 if c else 0)
            elif isinstance(c, (int, float)) or (isinstance(c, Raw) and c.kind == "num"):
                self.byte(3)
                self.number(c)
            elif isinstance(c, Raw) and c.kind == "byte":
                self.out += c.data
            else:
                self.byte(4)
                self.string(c)

    def lines(self, fn):
        self.integer(len(fn["lines"]))
        for line in fn["lines"]:
            self.integer(line)

    def locals(self, fn):
        self.integer(len(fn["locals"]))
        for name, start, end in fn["locals"]:
            self.string(name)
            self.integer(start)
            self.integer(end)

    def upnames(self, fn):
        self.integer(len(fn["upnames"]))
        for name in fn["upnames"]:
            self.string(name)

    def subs(self, fn):
        self.integer(len(fn["subs"]))
        for sub in fn["subs"]:
            self.function(sub)

    def function(self, fn):
        self.string(fn["source"])
        self.integer(fn["line"])
        if self.version == 81:
            self.integer(fn["last"])
        for key in ("nups", "params", "vararg", "stack"):
            self.byte(fn[key])
        parts = ([self.code, self.constants, self.subs, self.lines, self.locals, self.upnames] if self.version == 81 else
                 [self.lines, self.locals, self.upnames, self.constants, self.subs, self.code])
        for part in parts:
            part(fn)

    def header(self):
        f = self.f
        self.out += bytes(self.d["sig"])
        self.byte(self.version)
        if self.version == 81:
            self.byte(f[0])
        for v in f[1:5]:
            self.byte(v)
        if self.version == 80:
            for k in (1, 2, 3, 4):
                self.byte(self.sizes[k])
            self.byte(f[5])
            self.number(31415926.535897933 if not f[6] else 31415926)
        else:
            self.byte(f[5])
            self.byte(f[6])


class Raw:
    def __init__(self, data, kind="num"):
        self.data, self.kind = bytes(data), kind


def function(code=(), consts=(), subs=(), params=0, vararg=0, stack=2, nups=0, upnames=None, lines=None, locals=(),
             source="@t", line=0, last=0, **extra):
    code = list(code)
    fn = dict(source=source, line=line, last=last, nups=nups, params=params, vararg=vararg, stack=stack, code=code,
              consts=list(consts), subs=list(subs), lines=list(range(1, len(code) + 1)) if lines is None else list(lines),
              locals=list(locals), upnames=[] if upnames is None else list(upnames))
    fn.update(extra)
    return fn


def chunk(fn, version=81, fmt=None, dia=None):
    w = Writer(fmt or DEFAULT_FORMAT, version, dia or dialect(version))
    w.header()
    w.function(fn)
    return bytes(w.out)


def strip(fn):
    """What luac -s leaves of a function."""
    fn = dict(fn)
    fn.update(source=None, lines=[], locals=[], upnames=[], subs=[strip(s) for s in fn["subs"]])
    return fn


def hexlist(values):
    return bytes(values).hex()


LETTER = {1: "o", 2: "a", 3: "b", 4: "c"}


def layout_text(layout):
    return "".join(f"{LETTER[k]}{s}" for k, s in layout)


FIELDS = ("limit", "fpf", "sig", "layout")


def stimulus_line(case):
    """`left` of a case lists what the call leaves as the crate has it by default: [0, position] for a field of the format, [dialect, field]
    for one of the settings."""
    left = {tuple(x) for x in case.get("left", ())}
    f = ",".join("-" if (0, i + 1) in left else str(v) for i, v in enumerate(case["fmt"]))

    def text(n, s):
        values = (s["limit"], s["fpf"], bytes(s["sig"]).hex(), layout_text(s["layout"]))
        return ",".join("-" if (n, field) in left else str(v) for field, v in zip(FIELDS, values))
    d = ";".join(text(n + 1, s) for n, s in enumerate(case["set"]))
    return f"{case['id']}|{f}|{d}|{bytes(case['in']).hex()}"
