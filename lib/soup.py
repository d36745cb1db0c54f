"""Functions made of random instructions with operands chosen on purpose: arbitrary byte code that a loader accepts, and
byte code with operands at the borders of the layouts."""
import encode
from encode import Raw, function

R, K, U, N = "R", "K", "U", "N"
SHAPES = {
    "MOVE": (R, N), "LOADK": "X", "LOADBOOL": ("B", "B"), "LOADNIL": (R, N), "GETUPVAL": ("P", N), "GETGLOBAL": "X",
    "GETTABLE": (R, K), "SETGLOBAL": "X", "SETUPVAL": ("P", N), "SETTABLE": (K, K), "NEWTABLE": (U, U), "SELF": (R, K),
    "ADD": (K, K), "SUB": (K, K), "MUL": (K, K), "DIV": (K, K), "MOD": (K, K), "POW": (K, K), "UNM": (R, N), "NOT": (R, N),
    "LEN": (R, N), "CONCAT": (R, R), "EQ": (K, K), "LT": (K, K), "LE": (K, K), "TEST": (R, "B"), "TESTSET": (R, "B"),
}
COMMON = ["MOVE", "LOADK", "LOADBOOL", "LOADNIL", "GETUPVAL", "GETGLOBAL", "GETTABLE", "SETGLOBAL", "SETUPVAL", "SETTABLE",
          "NEWTABLE", "SELF", "ADD", "SUB", "MUL", "DIV", "POW", "UNM", "NOT", "CONCAT", "EQ", "LT", "LE", "TEST"]


def random_string(rng, wild=False):
    n = rng.choice([0, 1, 2, 3, 5, 8, 13])
    if wild:
        return bytes(rng.randrange(256) for _ in range(n))
    return bytes(rng.choice(b"abcxyz_019") for _ in range(n))


def random_number(rng, integral):
    if integral:
        return rng.choice([0, 1, -1, 7, 2 ** 31 - 1, -2 ** 31, rng.randint(-2 ** 31, 2 ** 31 - 1)])
    return rng.choice([0.0, 1.0, -1.0, 0.5, 1.5, 2.0 ** 31, -(2.0 ** 31), 16777216.0, rng.randint(-1000, 1000) / 8, 0.1])


def random_constants(rng, n, integral=False):
    out = []
    for i in range(n):
        what = rng.random()
        if i == 0 or what < 0.5:
            out.append(random_string(rng, rng.random() < 0.3))
        elif what < 0.8:
            out.append(random_number(rng, integral) if not integral else int(random_number(rng, True)))
        elif what < 0.9:
            # any byte but zero is true
            out.append(rng.choice([True, False, Raw(bytes([1, rng.choice([2, 3, 127, 128, 255])]), "byte")]))
        else:
            out.append(None)
    return out


class Soup:
    """A function a loader accepts, with random instructions and jumps."""

    def __init__(self, rng, version, dia, size=20, stack=None, nups=0, integral=False, depth=0, loops=True, big=False, lists=True):
        self.rng, self.version, self.d = rng, version, dia
        self.size, self.nups, self.depth, self.integral, self.loops, self.lists = size, nups, depth, integral, loops, lists
        sizes = {k: s for k, s in dia["layout"]}
        self.bmax = (1 << sizes[3]) - 1
        self.cmax = (1 << sizes[4]) - 1
        self.amax = (1 << sizes[2]) - 1
        regs = min(dia["limit"], self.amax + 1, self.cmax + 1, 1 << (sizes[3] - 1), 250)
        self.stack = stack or rng.choice([2, 3, 5, 8, 20, regs])
        self.stack = max(2, min(self.stack, regs))
        # constants an RK operand can name
        if version == 80:
            self.rkmax = min(self.bmax, self.cmax) - dia["limit"]
        else:
            self.rkmax = (1 << (sizes[3] - 1)) - 1 if sizes[4] >= sizes[3] else -1
        n = rng.choice([1, 2, 5, 10])
        if big:
            n = rng.choice([self.rkmax + 1, self.rkmax + 2, 255, 256, 257, 300]) if 0 < self.rkmax < 600 else 300
        self.consts = random_constants(rng, max(1, n), integral)
        self.strings = [i for i, c in enumerate(self.consts) if isinstance(c, bytes)]
        self.vararg = rng.random() < 0.3
        self.subs = []
        if depth < 2:
            for _ in range(rng.choice([0, 0, 1, 2])):
                self.subs.append(Soup(rng, version, dia, max(2, size // 2), nups=rng.choice([0, 1, 3]), integral=integral,
                                      depth=depth + 1, loops=loops, lists=lists).build())

    def reg(self, room=0):
        top = self.stack - 1 - room
        return self.rng.choice([0, top, self.rng.randint(0, top)]) if top >= 0 else None

    def operand(self, kind):
        r = self.rng
        if kind == R:
            return self.reg()
        if kind == "B":
            return r.choice([0, 1])
        if kind == "P":
            return r.randrange(self.nups) if self.nups else None
        if kind == U:
            return 0
        if kind == N:
            return 0
        if r.random() < 0.5 and self.rkmax >= 0:
            top = min(self.rkmax, len(self.consts) - 1)
            return ("k", r.choice([0, top, r.randint(0, top)]))
        return self.reg()

    def build(self):
        r = self.rng
        ops = list(COMMON) + ["JMP", "CALL", "OPEN", "RETURN", "CLOSE", "CLOSURE", "TAILCALL", "LOADBOOLSKIP"]
        if self.version == 81:
            ops += ["MOD", "LEN", "TESTSET", "VARARG", "VARARGOPEN", "FORPREP", "FORLOOP", "TFORLOOP"] + (["SETLIST"] if self.lists else [])
        elif self.loops:
            ops += ["SETLIST", "SETLISTO", "TFORLOOP", "TFORPREP", "FORLOOP"]
        code = []
        jumps = []
        while len(code) < self.size:
            op = r.choice(ops)
            a = self.reg()
            if op in ("GETUPVAL", "SETUPVAL") and not self.nups:
                continue
            if op == "LOADK":
                code.append((op, a, r.choice([0, len(self.consts) - 1, r.randrange(len(self.consts))])))
            elif op in ("GETGLOBAL", "SETGLOBAL"):
                code.append((op, a, r.choice(self.strings)))
            elif op == "LOADBOOLSKIP":
                code.append(("LOADBOOL", a, 0, 1))
                code.append(("MOVE", a, a, 0))
                code.append(("MOVE", a, a, 0))
            elif op == "LOADNIL":
                b = self.reg()
                code.append((op, min(a, b), max(a, b), 0))
            elif op == "SELF":
                a = self.reg(1)
                if a is None:
                    continue
                code.append((op, a, self.operand(R), self.operand(K)))
            elif op == "CONCAT":
                b = self.reg(1)
                if b is None:
                    continue
                code.append((op, a, b, r.randint(b + 1, self.stack - 1)))
            elif op in ("EQ", "LT", "LE", "TEST", "TESTSET"):
                kinds = SHAPES[op]
                first = r.choice([0, 1]) if op in ("EQ", "LT", "LE") else a
                if op == "TEST" and self.version == 81:
                    code.append((op, first, 0, self.operand("B")))
                else:
                    code.append((op, first, self.operand(kinds[0]), self.operand(kinds[1])))
                jumps.append(len(code))
                code.append(["JMP", 0, 0])
            elif op in SHAPES:
                code.append((op, a, self.operand(SHAPES[op][0]), self.operand(SHAPES[op][1])))
            elif op == "JMP":
                jumps.append(len(code))
                code.append([op, 0, 0])
            elif op == "CALL":
                room = r.randint(0, min(3, self.stack - 1))
                a = self.reg(room)
                code.append((op, a, r.randint(1, room + 1), r.randint(1, room + 1)))
            elif op in ("OPEN", "VARARGOPEN"):
                if op == "OPEN":
                    code.append(("CALL", a, 1, 0))
                elif self.vararg:
                    code.append(("VARARG", a, 0, 0))
                else:
                    continue
                sink = r.choice(["CALL", "RETURN"])
                code.append((sink, self.reg(), 0, 1 if sink == "CALL" else 0))
            elif op == "VARARG":
                if not self.vararg:
                    continue
                room = r.randint(0, min(3, self.stack - 1))
                code.append((op, self.reg(room), room + 2 if room else r.choice([1, 2]), 0))
            elif op == "TAILCALL":
                code.append((op, a, 1, 0))
                code.append(("RETURN", a, 0, 0))
            elif op == "RETURN":
                code.append((op, a, r.choice([1, 2]), 0))
            elif op == "CLOSE":
                code.append((op, a, 0, 0))
            elif op == "CLOSURE":
                if not self.subs:
                    continue
                index = r.randrange(len(self.subs))
                code.append((op, a, index))
                for _ in range(self.subs[index]["nups"]):
                    if self.nups and r.random() < 0.5:
                        code.append(("GETUPVAL", 0, r.randrange(self.nups), 0))
                    else:
                        code.append(("MOVE", 0, self.reg(), 0))
            elif op in ("FORPREP", "FORLOOP") and self.version == 81:
                a = self.reg(3)
                if a is None:
                    continue
                jumps.append(len(code))
                code.append([op, a, 0])
            elif op == "TFORPREP":
                a = self.reg(2)
                if a is None:
                    continue
                jumps.append(len(code))
                code.append([op, a, 0])
            elif op == "FORLOOP":
                a = self.reg(2)
                if a is None:
                    continue
                code.append([op, a, "back"])
                jumps.append(len(code) - 1)
            elif op == "TFORLOOP":
                c = r.randint(0, 3)
                room = c + 5 if self.version == 80 else c + 3
                a = self.reg(room)
                if a is None:
                    continue
                code.append((op, a, 0, c if self.version == 80 else c + 1))
                jumps.append(len(code))
                code.append(["JMP", 0, 0])
            elif op in ("SETLIST", "SETLISTO"):
                room = r.randint(1, max(1, min(3, self.stack - 1, self.d["fpf"])))
                a = self.reg(room)
                if a is None:
                    continue
                if self.version == 80:
                    if op == "SETLISTO":
                        code.append(("CALL", a + 1, 1, 0))
                    code.append((op, a, room - 1 + self.d["fpf"] * r.choice([0, 0, 1])))
                else:
                    code.append((op, a, room, r.choice([1, 1, 2])))
        code.append(("RETURN", 0, 1, 0))
        n = len(code)
        for pc in jumps:
            op = code[pc][0]
            if op == "FORLOOP" and self.version == 80:
                target = r.randint(0, pc)
            else:
                target = r.choice([0, n - 1, r.randint(0, n - 1), pc])
            code[pc] = (op, code[pc][1], target - (pc + 1))
        params = r.randint(0, min(3, self.stack - 1))
        lines = [r.choice([0, 1, 7, 250, 300, 65530, 70000, 2 ** 24 - 3, 2 ** 31 - 1 - n]) + i for i in range(n)] if r.random() < 0.8 else []
        if lines and r.random() < 0.1:
            # code that was generated rather than written may be on no line
            lines = [0] * n
        vararg = 0
        if self.vararg:
            vararg = r.choice([1, 1, 2]) if self.version == 80 else r.choice([2, 3, 3, 7])
        line = r.choice([0, 1, 127, 128, 255, 256, 32768, 65535, 65536, 70000, 2 ** 24, 2 ** 31 - 101, -1])
        return function(code=[tuple(i) for i in code], consts=self.consts, subs=self.subs, params=params, vararg=vararg,
                        stack=self.stack, nups=self.nups,
                        upnames=[random_string(r) for _ in range(self.nups)] if r.random() < 0.7 else [], lines=lines,
                        locals=[(random_string(r), r.choice([r.randint(0, n), r.randint(0, n), 256, 70000]), r.choice([r.randint(0, n), r.randint(0, n), 257, 2 ** 31 - 1])) for _ in range(r.randint(0, 3))],
                        source=r.choice([None, b"", b"@x.lua", b"=stdin", random_string(r, True)]), line=line,
                        last=line + r.choice([0, 1, 100]))


def edge_function(rng, version, dia, other, size=25):
    """Instructions of every kind with operands at the borders of the fields of two dialects."""
    mine = {k: s for k, s in dia["layout"]}
    yours = {k: s for k, s in other["layout"]}

    def value(size, fields, cap=None):
        tops = [(1 << s) - 1 for s in fields] + [1 << s for s in fields] + [0, 1, 2, 100]
        top = (1 << size) - 1 if cap is None else cap
        return rng.choice([v for v in tops if 0 <= v <= top] + [rng.randint(0, top)])

    def rk(size):
        if version == 80:
            top = (1 << size) - 1
            if rng.random() < 0.5 and top >= dia["limit"]:
                edges = [0, (1 << (yours[3] - 1)) - 1, 1 << (yours[3] - 1), top - dia["limit"]]
                return ("k", rng.choice([e for e in edges if e + dia["limit"] <= top]))
            return value(size, [yours[3] - 1, yours[4]], min(top, dia["limit"] - 1))
        bit = 1 << (mine[3] - 1)
        if rng.random() < 0.5 and size >= mine[3]:
            edges = [0, (1 << (yours[3] - 1)) - 1, 1 << (yours[3] - 1), bit - 1]
            return ("k", rng.choice([e for e in edges if e < bit]))
        return value(size, [yours[3] - 1, yours[4]], min((1 << size) - 1, bit - 1))

    ops = [o for o in (encode.OPS50 if version == 80 else encode.OPS51)]
    if version == 80:
        ops = [o for o in ops if o not in ("FORLOOP", "TFORLOOP", "TFORPREP", "SETLIST", "SETLISTO")]
    code = []
    for _ in range(size):
        op = rng.choice(ops)
        a = value(mine[2], [mine[2], yours[2]])
        x = mine[3] + mine[4]
        y = yours[3] + yours[4]
        if op in encode.WIDE[version]:
            code.append((op, a, value(x, [x, y])))
        elif op in encode.SIGNED:
            low, high = -((1 << (x - 1)) - 1), 1 << (x - 1)
            edges = [low, high, -1, 0, 1, -((1 << (y - 1)) - 1), 1 << (y - 1), -(1 << (y - 1)), (1 << (y - 1)) + 1,
                     rng.randint(low, high)]
            code.append((op, a, rng.choice([e for e in edges if low <= e <= high])))
        else:
            kinds = SHAPES.get(op)
            if op in ("CALL", "TAILCALL", "SETLIST"):
                kinds = (U, U)
            elif op in ("RETURN", "VARARG"):
                kinds = (U, N)
            elif op == "TFORLOOP":
                kinds = (N, U)
            elif op == "CLOSE":
                kinds = (N, N)
            args = []
            for kind, key in zip(kinds, (3, 4)):
                if kind == N or op == "NEWTABLE":
                    args.append(0)
                elif kind == K:
                    args.append(rk(mine[key]))
                elif op == "TESTSET" and key == 3:
                    args.append(value(mine[3], [yours[3] - 1], (1 << (mine[3] - 1)) - 1))
                elif version == 80 and op == "TEST" and key == 3:
                    args.append(value(mine[3], [yours[3] - 1], min((1 << mine[3]) - 1, 249)))
                else:
                    args.append(value(mine[key], [mine[key], yours[key]]))
            if op == "SETLIST" and args[1] == 0:
                args[1] = 1
            code.append((op, a, *args))
    code.append(("RETURN", 0, 1, 0))
    return function(code=code, consts=[b"x"], stack=rng.choice([2, 10, 200]), nups=rng.choice([0, 5]))
