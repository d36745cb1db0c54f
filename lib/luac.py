"""A small Lua compiler: random source programs to Lua 5.0 or 5.1 byte code, following the code generator of luac.

The programs only talk to external functions (global names) so that everything they do can be observed.  Nothing here is
trusted by the checks: the specification reads and runs the byte code on its own.
"""
from encode import function

FPF = {80: 32, 81: 50}


class TooBig(Exception):
    pass


class Fun:
    """Code generation state of one function (FuncState of lparser.c)."""

    def __init__(self, version, parent=None, params=(), vararg=False, fpf=None, source="@t", limit=250):
        self.version, self.parent, self.source, self.limit = version, parent, source, limit
        self.code, self.lines, self.consts, self.subs = [], [], [], []
        self.fpf = fpf or FPF[version]
        self.kindex = {}
        self.target = -1          # the last position a jump goes to
        self.free, self.maxstack = 0, 2
        self.active = []          # [name, register, captured]
        self.locvars = []
        self.blocks = []
        self.upvals = []          # (name, from_parent_local, index)
        self.vararg = vararg
        self.nparams = len(params)
        self.line = parent.line + 1 if parent else 1
        self.defined = parent.line if parent else 0
        for p in params:
            self.reserve(1)
            self.local(p)
        if vararg and version == 80:
            self.reserve(1)
            self.local("arg")

    # registers and constants
    def reserve(self, n):
        at = self.free
        self.free += n
        if self.free > self.limit:
            raise TooBig("registers")
        self.maxstack = max(self.maxstack, self.free)
        return at

    def touch(self, top):
        if top > self.limit:
            raise TooBig("registers")
        self.maxstack = max(self.maxstack, top)

    def k(self, value):
        key = (type(value).__name__, value)
        if key not in self.kindex:
            self.kindex[key] = len(self.consts)
            self.consts.append(value)
        return self.kindex[key]

    def maxrk(self):
        return 511 - self.limit if self.version == 80 else 255

    # code
    def emit(self, *ins):
        self.code.append(list(ins))
        self.lines.append(self.line)
        return len(self.code) - 1

    def here(self):
        return len(self.code)

    def jump(self):
        return self.emit("JMP", 0, 0)

    def patch(self, pc, target=None):
        self.code[pc][2] = (self.label() if target is None else target) - (pc + 1)

    def label(self):
        """The position of the next instruction, which a jump goes to."""
        self.target = len(self.code)
        return self.target

    def nil(self, first, last):
        """luaK_nil: what the instruction before does already is not done again, and it is extended if possible."""
        if self.version == 81 and not self.code and first >= len(self.active):
            return
        if self.code and self.target < len(self.code) and self.code[-1][0] == "LOADNIL":
            before = self.code[-1]
            if before[1] <= first <= before[2] + 1:
                before[2] = max(before[2], last)
                return
        self.emit("LOADNIL", first, last, 0)

    # scopes
    def local(self, name, reg=None):
        reg = len(self.active) if reg is None else reg
        self.active.append([name, reg, False])
        self.locvars.append([name, self.here(), None, len(self.active)])

    def enter(self, loop=False):
        self.blocks.append({"nact": len(self.active), "loop": loop, "breaks": []})

    def drop_locals(self, nact):
        captured = [v for v in self.active[nact:] if v[2]]
        for v in self.locvars:
            if v[2] is None and v[3] > nact:
                v[2] = self.here()
        del self.active[nact:]
        return captured

    def leave(self, dead_end=False):
        block = self.blocks.pop()
        captured = self.drop_locals(block["nact"])
        if captured:
            self.emit("CLOSE", min(v[1] for v in captured), 0, 0)
        self.free = len(self.active)
        for pc in block["breaks"]:
            self.patch(pc)

    def find(self, name):
        for v in reversed(self.active):
            if v[0] == name:
                return v
        return None

    def upvalue(self, name):
        for i, u in enumerate(self.upvals):
            if u[0] == name:
                return i
        if self.parent is None:
            return None
        v = self.parent.find(name)
        if v:
            v[2] = True
            self.upvals.append((name, True, v[1]))
        else:
            up = self.parent.upvalue(name)
            if up is None:
                return None
            self.upvals.append((name, False, up))
        if len(self.upvals) > 32:
            raise TooBig("upvalues")
        return len(self.upvals) - 1

    def finish(self):
        self.emit("RETURN", 0, 1, 0)
        self.drop_locals(0)
        vararg = 0
        if self.vararg:
            vararg = 1 if self.version == 80 else 2
        return function(code=[tuple(i) for i in self.code], consts=self.consts, subs=self.subs, params=self.nparams, vararg=vararg,
                        stack=self.maxstack, nups=len(self.upvals), upnames=[u[0] for u in self.upvals], lines=list(self.lines),
                        locals=[(n, a, b) for n, a, b, _ in self.locvars], source=self.source, line=self.defined,
                        last=self.line if self.version == 81 else self.defined)

    # expressions: e is a tuple, see Source
    def expr(self, e, target):
        """The value of e in the register target, which is the first free one or an active local."""
        kind = e[0]
        if kind == "nil":
            self.nil(target, target)
        elif kind == "bool":
            self.emit("LOADBOOL", target, 1 if e[1] else 0, 0)
        elif kind in ("num", "str"):
            self.emit("LOADK", target, self.k(e[1]))
        elif kind == "global":
            self.emit("GETGLOBAL", target, self.k(e[1]))
        elif kind == "local":
            v = self.find(e[1])
            if v:
                if v[1] != target:
                    self.emit("MOVE", target, v[1], 0)
            else:
                up = self.upvalue(e[1])
                if up is None:
                    self.emit("GETGLOBAL", target, self.k(e[1]))
                else:
                    self.emit("GETUPVAL", target, up, 0)
        elif kind == "index":
            mark = self.free
            o = self.anyreg(e[1])
            key = self.rk(e[2])
            self.emit("GETTABLE", target, o, key)
            self.free = mark
        elif kind == "bin":
            mark = self.free
            a = self.rk(e[2])
            b = self.rk(e[3])
            self.emit(e[1], target, a, b)
            self.free = mark
        elif kind in ("NOT", "UNM", "LEN"):
            mark = self.free
            a = self.anyreg(e[1])
            self.emit(kind, target, a, 0)
            self.free = mark
        elif kind == "concat":
            mark = self.free
            regs = [self.next(x) for x in e[1]]
            self.emit("CONCAT", target, regs[0], regs[-1])
            self.free = mark
        elif kind == "call":
            mark = self.free
            base = self.call(e)
            self.code[-1][3] = 2
            self.free = mark
            self.touch(base + 1)
            if base != target:
                self.emit("MOVE", target, base, 0)
        elif kind in ("and", "or"):
            want = 0 if kind == "and" else 1
            mark = self.free
            v = self.find(e[1][1]) if e[1][0] == "local" else None
            if v:
                source = v[1]
            else:
                source = self.next(e[1]) if target < self.free - 0 and target != self.free else self.next(e[1])
            if self.version == 80:
                self.emit("TEST", target, source, want)
            elif source == target:
                self.emit("TEST", target, 0, want)
            else:
                self.emit("TESTSET", target, source, want)
            end = self.jump()
            self.free = mark
            self.expr_into(e[2], target)
            self.patch(end)
        elif kind == "cmp":
            mark = self.free
            a = self.rk(e[2])
            b = self.rk(e[3])
            self.free = mark
            self.emit(e[1], 1 if e[4] else 0, a, b)
            yes = self.jump()
            self.emit("LOADBOOL", target, 0, 1)
            self.patch(yes)
            self.emit("LOADBOOL", target, 1, 0)
        elif kind == "table":
            self.table(e[1], target)
        elif kind == "closure":
            self.closure(e[1], target)
        elif kind == "vararg":
            if self.version == 80:
                self.expr(("local", "arg"), target)
            else:
                self.emit("VARARG", target, 2, 0)
        else:
            raise ValueError(kind)

    def expr_into(self, e, target):
        self.expr(e, target)

    def next(self, e):
        """e in the next free register."""
        target = self.reserve(1)
        self.free -= 1
        # temporaries of the expression start at the target, as in luac, unless it writes it early
        if e[0] in ("and", "or", "table", "closure"):
            self.free += 1
            self.expr_reserved(e, target)
            self.free = target + 1
        else:
            self.expr(e, target)
            self.free = target + 1
        self.touch(self.free)
        return target

    def expr_reserved(self, e, target):
        if e[0] in ("and", "or"):
            want = 0 if e[0] == "and" else 1
            v = self.find(e[1][1]) if e[1][0] == "local" else None
            if v:
                source = v[1]
            else:
                self.free = target
                source = self.next(e[1])
            if self.version == 80:
                self.emit("TEST", target, source, want)
            elif source == target:
                self.emit("TEST", target, 0, want)
            else:
                self.emit("TESTSET", target, source, want)
            end = self.jump()
            self.free = target
            self.next(e[2])
            self.patch(end)
        else:
            self.expr(e, target)

    def anyreg(self, e):
        if e[0] == "local":
            v = self.find(e[1])
            if v:
                return v[1]
        return self.next(e)

    def rk(self, e):
        if e[0] in ("num", "str", "nil", "bool") and not (e[0] == "bool" and self.version == 80):
            value = None if e[0] == "nil" else e[1]
            index = self.k(value)
            if index <= self.maxrk():
                return ("k", index)
        return self.anyreg(e)

    def arguments(self, args):
        """Places the arguments in fresh registers; tells whether the last one is open."""
        for i, a in enumerate(args):
            if i == len(args) - 1 and a[0] in ("call", "vararg") and a[-1] == "open":
                if a[0] == "call":
                    mark = self.free
                    self.call(a)
                    self.code[-1][3] = 0
                    self.free = mark
                elif self.version == 81 and self.vararg:
                    self.emit("VARARG", self.free, 0, 0)
                else:
                    self.next(("num", 7))
                    return False
                return True
            self.next(a)
        return False

    def call(self, e):
        """e = ("call", f, args, ...): emits the call with one result at the first free register."""
        base = self.free
        f = e[1]
        if f[0] == "method":
            self.reserve(2)
            self.free = base
            o = self.anyreg(f[1])
            self.free = max(self.free, base)
            key = self.rk(("str", f[2]))
            self.emit("SELF", base, o, key)
            self.free = base + 2
            self.touch(self.free)
        else:
            self.next(f)
        is_open = self.arguments(e[2])
        count = 0 if is_open else self.free - base
        self.emit("CALL", base, count, 2)
        self.free = base
        self.touch(base + 1)
        return base

    def table(self, items, target):
        # the table sits in the target, which is the last register in use
        self.emit("NEWTABLE", target, 0, 0)
        mark = self.free
        count, pending, last = 0, 0, None
        for index, item in enumerate(items):
            # closelistfield: flush when the next item starts
            if pending == self.fpf:
                self.flush(target, count, pending)
                pending = 0
                self.free = mark
            if item[0] == "item":
                value = item[1]
                if index == len(items) - 1 and value[0] in ("call", "vararg") and value[-1] == "open" and (
                        value[0] == "call" or (self.version == 81 and self.vararg)):
                    count += 1
                    if value[0] == "call":
                        here = self.free
                        self.call(value)
                        self.code[-1][3] = 0
                        self.free = here
                    else:
                        self.emit("VARARG", self.free, 0, 0)
                    if self.version == 80:
                        self.emit("SETLISTO", target, count - 1)
                    else:
                        self.set_list(target, 0, (count - 1) // self.fpf + 1)
                    pending = 0
                    self.free = mark
                    return
                self.next(value)
                count += 1
                pending += 1
            else:
                here = self.free
                key = self.rk(item[1])
                value = self.rk(item[2])
                self.emit("SETTABLE", target, key, value)
                self.free = here
        if pending > 0:
            self.flush(target, count, pending)
        self.free = mark

    def flush(self, target, count, pending):
        if self.version == 80:
            self.emit("SETLIST", target, count - 1)
        else:
            self.set_list(target, pending, (count - 1) // self.fpf + 1)

    def set_list(self, target, b, c):
        if c <= 511:
            self.emit("SETLIST", target, b, c)
        else:
            self.emit("SETLIST", target, b, 0)
            self.emit("RAW", c)

    def closure(self, source, target):
        sub = Fun(self.version, self, source["params"], source["vararg"], self.fpf, self.source, self.limit)
        Source.block(sub, source["body"])
        self.line = sub.line
        self.subs.append(None)
        index = len(self.subs) - 1
        self.subs[index] = sub.finish()
        self.emit("CLOSURE", target, index)
        for name, is_local, reg in sub.upvals:
            self.emit("MOVE" if is_local else "GETUPVAL", 0, reg, 0)

    # conditions: jumps that are taken when the condition is false
    def condition(self, e, when=False):
        """Emits a jump taken when the truth of e equals `when`; returns its position."""
        mark = self.free
        if e[0] == "cmp":
            a, b = self.rk(e[2]), self.rk(e[3])
            self.free = mark
            self.emit(e[1], int(bool(e[4]) == when), a, b)
        elif e[0] == "NOT":
            return self.condition(e[1], not when)
        else:
            r = self.anyreg(e)
            self.free = mark
            if self.version == 80:
                self.emit("TEST", r, r, int(when))
            else:
                self.emit("TEST", r, 0, int(when))
        return self.jump()


class Source:
    """Statements to code."""

    @staticmethod
    def block(f, statements):
        for s in statements:
            f.line += 1 + (len(f.code) % 3 == 0)
            getattr(Source, "do_" + s[0])(f, *s[1:])
            if f.free < len(f.active):
                raise ValueError("free register below the locals")
            f.free = len(f.active)

    @staticmethod
    def do_local(f, names, values):
        nact = len(f.active)
        for i, name in enumerate(names):
            if i < len(values):
                v = values[i]
                if i == len(values) - 1 and v[0] == "call" and len(names) > len(values):
                    base = f.free
                    f.call(v)
                    want = len(names) - i
                    f.code[-1][3] = want + 1
                    f.reserve(want)
                    break
                f.next(v)
            else:
                first = f.free
                f.reserve(len(names) - i)
                f.nil(first, f.free - 1)
                break
        for name in names:
            f.local(name)
        assert len(f.active) == nact + len(names) == f.free, (names, values, f.free, len(f.active))

    @staticmethod
    def do_assign(f, target, value):
        if target[0] == "local":
            v = f.find(target[1])
            if v:
                if value[0] in ("and", "or", "table", "call", "concat", "closure", "cmp"):
                    r = f.next(value)
                    f.emit("MOVE", v[1], r, 0)
                else:
                    f.expr(value, v[1])
                return
            up = f.upvalue(target[1])
            if up is not None:
                r = f.anyreg(value)
                f.emit("SETUPVAL", r, up, 0)
                return
            target = ("global", target[1])
        if target[0] == "global":
            r = f.anyreg(value)
            f.emit("SETGLOBAL", r, f.k(target[1]))
            return
        o = f.anyreg(target[1])
        key = f.rk(target[2])
        val = f.rk(value)
        f.emit("SETTABLE", o, key, val)

    @staticmethod
    def store(f, target, register):
        """Assigns a register; the table and the key of an indexed target are in registers already."""
        if target[0] == "local":
            v = f.find(target[1])
            if v:
                f.emit("MOVE", v[1], register, 0)
                return
            up = f.upvalue(target[1])
            if up is not None:
                f.emit("SETUPVAL", register, up, 0)
                return
        if target[0] in ("local", "global"):
            f.emit("SETGLOBAL", register, f.k(target[1]))
        else:
            f.emit("SETTABLE", target[1], target[2], register)

    @staticmethod
    def do_assignmany(f, targets, values):
        ready = []
        for t in targets:
            v = f.find(t[1]) if t[0] == "local" else None
            if t[0] == "index":
                o = f.anyreg(t[1])
                ready.append(["index", o, f.rk(t[2])])
                continue
            if v and any(r[0] == "index" and v[1] in r[1:] for r in ready):
                # check_conflict: the targets on the left keep the old value
                extra = f.reserve(1)
                f.emit("MOVE", extra, v[1], 0)
                ready = [["index", *[extra if x == v[1] else x for x in r[1:]]] if r[0] == "index" else r for r in ready]
            ready.append(t)
        mark = f.free
        for i, value in enumerate(values):
            missing = len(targets) - len(values)
            if i == len(values) - 1 and value[0] == "call" and missing > 0:
                f.call(value)
                f.code[-1][3] = missing + 2
                f.reserve(missing + 1)
            else:
                f.next(value)
        if f.free - mark < len(targets):
            first = f.free
            f.reserve(len(targets) - (f.free - mark))
            f.nil(first, f.free - 1)
        for i in range(len(targets) - 1, -1, -1):
            Source.store(f, ready[i], mark + i)

    @staticmethod
    def do_localfunction(f, name, source):
        register = f.reserve(1)
        f.local(name)
        f.touch(f.free)
        f.closure(source, register)
        # debug information sees the variable only after its value is there
        f.locvars[-1][1] = f.here()

    @staticmethod
    def do_repeat51(f, body, c):
        """The condition sees the local variables of the body."""
        start = f.label()
        f.enter(True)
        f.enter()
        Source.block(f, body)
        again = f.condition(c)
        if not any(v[2] for v in f.active[f.blocks[-1]["nact"]:]):
            f.leave()
            f.patch(again, start)
        else:
            Source.do_break(f)
            f.patch(again)
            f.leave()
            f.patch(f.jump(), start)
        f.leave()

    @staticmethod
    def do_forever(f, body):
        """while true do ... end"""
        init = f.jump() if f.version == 80 else None
        start = f.label()
        f.enter(True)
        f.enter()
        Source.block(f, body)
        f.leave()
        if init is not None:
            f.patch(init)
        back = f.jump()
        f.patch(back, start)
        f.leave()

    @staticmethod
    def do_call(f, e):
        f.call(e)
        f.code[-1][3] = 1

    @staticmethod
    def do_do(f, body):
        f.enter()
        Source.block(f, body)
        f.leave()

    @staticmethod
    def do_if(f, clauses, otherwise):
        ends = []
        for i, (c, body) in enumerate(clauses):
            skip = f.condition(c)
            f.enter()
            Source.block(f, body)
            f.leave()
            if i + 1 < len(clauses) or otherwise:
                ends.append(f.jump())
            f.patch(skip)
        if otherwise:
            f.enter()
            Source.block(f, otherwise)
            f.leave()
        for e in ends:
            f.patch(e)

    @staticmethod
    def do_while(f, c, body):
        if f.version == 80:
            # Lua 5.0 moves the condition behind the body
            init = f.jump()
            f.enter(True)
            start = f.label()
            f.enter()
            Source.block(f, body)
            f.leave()
            f.patch(init)
            back = f.condition(c, True)
            f.patch(back, start)
            f.leave()
        else:
            start = f.label()
            out = f.condition(c)
            f.enter(True)
            f.enter()
            Source.block(f, body)
            f.leave()
            f.patch(f.jump(), start)
            f.patch(out)
            f.leave()

    @staticmethod
    def do_repeat(f, body, c):
        start = f.label()
        f.enter(True)
        f.enter()
        Source.block(f, body)
        f.leave()
        again = f.condition(c)
        f.patch(again, start)
        f.leave()

    @staticmethod
    def do_for(f, name, first, last, step, body):
        base = f.free
        f.enter(True)
        f.next(first)
        f.next(last)
        f.next(step if step else ("num", 1))
        line = f.line
        if f.version == 80:
            f.emit("SUB", base, base, base + 2)
            prep = f.jump()
            for n in (name, "(for limit)", "(for step)"):
                f.local(n)
            f.enter()
            start = f.label()
            Source.block(f, body)
            f.leave()
            f.patch(prep)
            f.emit("FORLOOP", base, start - f.here() - 1)
            f.lines[-1] = line
            f.leave()
        else:
            prep = f.emit("FORPREP", base, 0)
            for n in ("(for index)", "(for limit)", "(for step)"):
                f.local(n)
            f.reserve(1)
            f.enter()
            f.local(name)
            Source.block(f, body)
            f.leave()
            f.patch(prep)
            f.emit("FORLOOP", base, prep + 1 - f.here() - 1)
            f.lines[-1] = line
            f.leave()

    @staticmethod
    def do_forin(f, names, values, body):
        base = f.free
        f.enter(True)
        line = f.line
        want = 2 + len(names) if f.version == 80 else 3
        values = list(values)[:want]
        for i, v in enumerate(values):
            if i == len(values) - 1 and v[0] == "call":
                f.call(v)
                f.code[-1][3] = want - i + 1
                f.reserve(want - i)
            else:
                f.next(v)
        if f.free - base < want:
            first = f.free
            f.reserve(want - (f.free - base))
            f.nil(first, f.free - 1)
        if f.version == 80:
            prep = f.emit("TFORPREP", base, 0)
            f.touch(base + len(names) - 1 + 6)
            for n in ["(for generator)", "(for state)"] + names:
                f.local(n)
            f.enter()
            start = f.label()
            Source.block(f, body)
            f.leave()
            f.patch(prep)
            f.emit("TFORLOOP", base, 0, len(names) - 1)
            f.lines[-1] = line
            f.patch(f.jump(), start)
            f.leave()
        else:
            prep = f.jump()
            for n in ("(for generator)", "(for state)", "(for control)"):
                f.local(n)
            f.touch(base + 6)
            f.reserve(len(names))
            f.enter()
            for n in names:
                f.local(n)
            start = f.label()
            Source.block(f, body)
            f.leave()
            f.patch(prep)
            f.emit("TFORLOOP", base, 0, len(names))
            f.lines[-1] = line
            f.patch(f.jump(), start)
            f.leave()

    @staticmethod
    def do_break(f):
        for i in range(len(f.blocks) - 1, -1, -1):
            block = f.blocks[i]
            if block["loop"]:
                captured = [v for v in f.active[block["nact"]:] if v[2]]
                if captured:
                    f.emit("CLOSE", min(v[1] for v in captured), 0, 0)
                block["breaks"].append(f.jump())
                return

    @staticmethod
    def do_return(f, values):
        base = f.free
        if len(values) == 1 and values[0][0] == "call" and values[0][-1] == "open":
            f.call(values[0])
            f.code[-1][0] = "TAILCALL"
            f.code[-1][3] = 0
            f.emit("RETURN", base, 0, 0)
            return
        is_open = f.arguments(values)
        f.emit("RETURN", base, 0 if is_open else f.free - base + 1, 0)


def compile_program(body, version=80, vararg=False, fpf=None, params=(), limit=250):
    f = Fun(version, None, params, vararg, fpf, limit=limit)
    Source.block(f, body)
    return f.finish()


class Random:
    """Random programs.  `focus` weighs the statements."""

    WEIGHTS = {
        "branch": {"call": 4, "local": 4, "assign": 5, "if": 5, "while": 1, "repeat": 1, "do": 1, "break": 1, "return": 1},
        "for": {"call": 4, "local": 3, "assign": 3, "if": 2, "for": 5, "while": 1, "break": 1, "do": 1},
        "forin": {"call": 4, "local": 3, "assign": 2, "if": 2, "forin": 5, "for": 1, "break": 1, "do": 1},
        "table": {"call": 3, "local": 3, "assign": 2, "if": 2, "tablelocal": 6, "for": 1, "forin": 1},
        "vararg": {"call": 4, "local": 4, "assign": 3, "if": 3, "while": 1, "closure": 3, "return": 1, "for": 1, "forin": 1},
        "closure": {"call": 3, "local": 3, "assign": 3, "if": 2, "closure": 5, "for": 2, "forin": 1, "do": 2, "while": 1},
    }
    #: statements that only some plans ask for
    RICH = {"call": 4, "local": 3, "assign": 2, "many": 4, "deep": 2, "method": 3, "if": 3, "while": 1, "again": 2, "forever": 1, "do": 1,
            "for": 1, "forin": 1, "recursive": 2, "closure": 2, "tablelocal": 1, "break": 1, "return": 1}
    EXPRESSIONS = {
        "branch": {"const": 4, "var": 6, "global": 3, "call": 2, "bin": 3, "and": 3, "cmp": 2, "not": 1, "index": 1, "concat": 1},
        "table": {"const": 4, "var": 3, "global": 3, "call": 2, "bin": 1, "and": 3, "cmp": 1, "not": 1, "table": 3, "closure": 1,
                  "index": 1},
        "other": {"const": 4, "var": 6, "global": 3, "call": 2, "bin": 2, "and": 1, "cmp": 1, "not": 1, "table": 1, "index": 1},
    }

    def __init__(self, rng, focus, version=80, size=12, fpf=None, depth=3, items=None):
        self.rng, self.focus, self.version, self.size, self.depth = rng, focus, version, size, depth
        self.fpf = fpf or FPF[version]
        self.items = items
        self.names = 0

    def pick(self, weights):
        keys = list(weights)
        return self.rng.choices(keys, [weights[k] for k in keys])[0]

    def name(self):
        self.names += 1
        return self.rng.choice(["a", "b", "c", "x", "y", "z"]) + (str(self.names) if self.rng.random() < 0.7 else "")

    def constant(self):
        r = self.rng
        return r.choice([("nil",), ("bool", True), ("bool", False), ("num", r.randint(-3, 9)), ("num", r.randint(0, 40) / 4),
                         ("str", r.choice(["k", "key", "s", "type", "next", "", "arg"]))])

    def expression(self, scope, depth=2):
        kind = self.pick(self.EXPRESSIONS.get(self.focus, self.EXPRESSIONS["other"]))
        r = self.rng
        if kind == "closure" and scope["depth"] >= self.depth or depth <= 0 and kind not in ("const", "var", "global"):
            kind = r.choice(["const", "var", "global"])
        sub = lambda: self.expression(scope, depth - 1)
        if kind == "const":
            return self.constant()
        if kind == "var":
            return ("local", r.choice(scope["vars"])) if scope["vars"] else ("global", "g")
        if kind == "global":
            return ("global", r.choice(["g", "h", "print"]))
        if kind == "call":
            return self.call(scope, depth - 1)
        def operand():
            # mostly something that has the operation
            choice = r.random()
            if choice < 0.15:
                return sub()
            if choice < 0.4 and scope.get("nums"):
                return ("local", r.choice(scope["nums"]))
            if choice < 0.6:
                return ("num", r.randint(0, 5))
            return ("global", r.choice(["g", "h"])) if choice < 0.8 or depth <= 1 else self.call(scope, depth - 1)

        if kind == "bin":
            return ("bin", r.choice(["ADD", "SUB", "MUL", "DIV", "POW"]), operand(), operand())
        if kind == "and":
            return (r.choice(["and", "or"]), sub(), sub())
        if kind == "cmp":
            op = r.choice(["EQ", "LT", "LE"])
            operand = sub if op == "EQ" else operand
            return ("cmp", op, operand(), operand(), r.random() < 0.5)
        if kind == "not":
            op = r.choice(["NOT", "UNM"]) if self.version == 80 else r.choice(["NOT", "UNM", "LEN"])
            return (op, sub() if op == "NOT" else operand())
        if kind == "index":
            return ("index", operand() if r.random() < 0.2 else ("global", "g"), sub())
        if kind == "concat":
            return ("concat", [operand() for _ in range(r.randint(2, 4))])
        if kind == "table":
            return self.table(scope, depth - 1)
        if kind == "closure":
            return self.function(scope, max(1, depth))
        raise ValueError(kind)

    def call(self, scope, depth=1, is_open=None):
        r = self.rng
        f = ("global", r.choice(["f", "g", "h"])) if r.random() < 0.85 or not scope["vars"] else (
            ("local", r.choice(scope["vars"])) if r.random() < 0.25 else ("method", ("global", "g"), "m"))
        args = [self.expression(scope, depth) for _ in range(r.randint(0, 3))]
        if r.random() < 0.2:
            args.append(self.call(scope, 0, True))
        return ("call", f, args, "open" if (r.random() < 0.2 if is_open is None else is_open) else "one")

    def target(self, scope):
        r = self.rng
        choice = r.random()
        if choice < 0.5 and scope["vars"]:
            return ("local", r.choice(scope["vars"]))
        if choice < 0.75:
            return ("global", r.choice(["v", "w", "g"]))
        table = ("local", r.choice(scope["vars"])) if scope["vars"] and r.random() < 0.4 else ("global", "g")
        key = ("local", r.choice(scope["vars"])) if scope["vars"] and r.random() < 0.4 else ("str", r.choice(["k", "key"]))
        return ("index", table, key)

    @staticmethod
    def back(target):
        return ("index", target[1], target[2]) if target[0] == "index" else target

    def count(self):
        if self.items is not None:
            return self.items
        f = self.fpf
        r = self.rng
        choice = r.random()
        if choice < 0.4:
            return r.randint(0, 4)
        if choice < 0.8:
            return max(0, r.choice([f, f, 2 * f, 3 * f]) + r.choice([-1, 0, 1, 2]))
        return r.randint(0, 3 * f + 1)

    def table(self, scope, depth=1, count=None):
        r = self.rng
        n = self.count() if count is None else count
        rich = r.random()
        items = []
        for i in range(n):
            if rich < 0.3:
                items.append(("item", ("num", i + 1)))
            elif r.random() < 0.15:
                items.append(("pair", r.choice([("str", "k%d" % i), ("global", "g")]), self.expression(scope, min(depth, 1))))
            else:
                items.append(("item", self.expression(scope, min(depth, 1)) if r.random() < 0.5 else ("num", i + 1)))
        if r.random() < 0.3:
            items.append(("item", self.call(scope, 0, True)))
        elif scope["vararg"] and r.random() < 0.3:
            items.append(("item", ("vararg", "open")))
        return ("table", items)

    def function(self, scope, depth):
        r = self.rng
        params = [self.name() for _ in range(r.randint(0, 3))]
        vararg = r.random() < (0.6 if self.focus == "vararg" else 0.15)
        inner = {"nums": [n for n in scope.get("nums", []) if n in scope["vars"][-4:] and n not in params], "vars": scope["vars"][-4:] + params + (["arg"] if vararg and self.version == 80 else []), "loop": False,
                 "vararg": vararg, "depth": scope["depth"] + 1}
        body = self.block(inner, max(1, self.size // 3))
        if r.random() < 0.7:
            body.append(("return", [self.expression(inner, 1) for _ in range(r.randint(0, 2))]))
        return ("closure", {"params": params, "vararg": vararg, "body": body})

    def block(self, scope, size):
        r = self.rng
        inner = dict(scope, vars=list(scope["vars"]), nums=list(scope.get("nums", [])))
        out = []
        n = r.randint(1, max(1, size))
        for i in range(n):
            kind = self.pick(self.RICH if self.focus == "rich" else self.WEIGHTS[self.focus])
            nested = inner["depth"] >= self.depth
            if nested and kind in ("if", "again", "forever", "recursive", "while", "repeat", "for", "forin", "do", "closure"):
                kind = "call"
            deeper = dict(inner, depth=inner["depth"] + 1)
            if kind == "call":
                out.append(("call", self.call(inner)))
            elif kind == "local":
                names = [self.name() for _ in range(r.randint(1, 3))]
                values = [self.expression(inner) for _ in range(r.randint(0, len(names)))]
                out.append(("local", names, values))
                inner["vars"] += names
                if values and values[0][0] in ("num", "global", "bin"):
                    inner["nums"] = inner.get("nums", []) + names[:1]
            elif kind == "tablelocal":
                name = self.name()
                table = self.table(inner)
                if r.random() < 0.5:
                    out.append(("local", [name], [table]))
                    inner["vars"].append(name)
                    out.append(("call", ("call", ("global", "f"), [("local", name)], "one")))
                else:
                    out.append(("call", ("call", ("global", "f"), [table], "one")))
            elif kind == "assign":
                target = r.choice([("local", r.choice(inner["vars"])) if inner["vars"] else ("global", "v"), ("global", "v"),
                                   ("index", ("global", "g"), self.constant())])
                if target[0] == "index" and target[2][0] == "nil":
                    target = ("global", "v")
                value = self.expression(inner)
                if target[0] == "local" and target[1] in inner.get("nums", []) and value[0] not in ("num", "bin"):
                    value = ("bin", "ADD", target, ("num", 1))
                out.append(("assign", target, value))
            elif kind == "if":
                clauses = [(self.expression(inner, 1), self.block(deeper, size // 2)) for _ in range(r.choice([1, 1, 2]))]
                out.append(("if", clauses, self.block(deeper, size // 2) if r.random() < 0.5 else None))
            elif kind == "while":
                out.append(("while", self.expression(inner, 1), self.block(dict(deeper, loop=True), size // 2)))
            elif kind == "repeat":
                out.append(("repeat", self.block(dict(deeper, loop=True), size // 2), self.expression(inner, 1)))
            elif kind == "do":
                out.append(("do", self.block(deeper, size // 2)))
            elif kind == "many":
                targets = [self.target(inner) for _ in range(r.randint(2, 4))]
                values = [self.expression(inner, 1) for _ in range(r.randint(1, len(targets) + 1))]
                if len(targets) <= len(values) and r.random() < 0.5:
                    values = [self.back(t) for t in targets[::-1]]
                out.append(("assignmany", targets, values))
            elif kind == "deep":
                out.append(("assign", ("index", ("index", ("global", "g"), self.constant()), ("str", "k")), self.expression(inner, 1)))
            elif kind == "method":
                what = ("local", r.choice(inner["vars"])) if inner["vars"] and r.random() < 0.3 else r.choice(
                    [("global", "g"), ("index", ("global", "g"), ("str", "k")), self.call(inner, 0, False)])
                call = ("call", ("method", what, r.choice(["m", "key", "type"])), [self.expression(inner, 1) for _ in range(r.randint(0, 2))], "one")
                if r.random() < 0.5:
                    out.append(("call", call))
                else:
                    name = self.name()
                    out.append(("local", [name], [call]))
                    inner["vars"].append(name)
            elif kind == "again":
                body = self.block(dict(deeper, loop=True), size // 2)
                known = [n for s in body if s[0] == "local" for n in s[1]]
                if self.version == 80 or body[-1][0] in ("break", "return"):
                    out.append(("repeat", body, self.expression(inner, 1)))
                else:
                    test = ("local", r.choice(known)) if known and r.random() < 0.6 else self.expression(dict(inner, vars=inner["vars"] + known), 1)
                    out.append(("repeat51", body, test))
            elif kind == "forever":
                body = self.block(dict(deeper, loop=True), size // 2)
                leave = ("break",) if r.random() < 0.8 else ("return", [self.expression(inner, 0)])
                if body[-1][0] in ("break", "return"):
                    body.pop()
                out.append(("forever", body + [("if", [(self.expression(inner, 1), [leave])], None)]))
            elif kind == "recursive":
                name = self.name()
                inner["vars"].append(name)
                out.append(("localfunction", name, self.function(inner, 2)[1]))
                out.append(("call", ("call", ("global", "f"), [("local", name)], "one")))
            elif kind == "for":
                name = self.name()
                step = r.choice([None, None, ("num", 2), ("num", -1), ("num", 0.5), ("num", -0.5)])
                down = step is not None and step[1] < 0
                first, last = r.choice([(1, 2), (1, 1), (1, 0), (1, 3), (0, 2)])
                if down:
                    first, last = last, first
                body = self.block(dict(deeper, loop=True, vars=deeper["vars"] + [name], nums=deeper.get("nums", []) + [name]), size // 2)
                bound = ("num", last)
                if r.random() < 0.2 and inner["vars"]:
                    bound = ("bin", "ADD", ("num", last), ("num", 0))
                out.append(("for", name, ("num", first), bound, step, body))
            elif kind == "forin":
                names = [self.name() for _ in range(r.choice([1, 1, 2, 2, 3, 5]))]
                body = self.block(dict(deeper, loop=True, vars=deeper["vars"] + names), size // 2)
                what = r.random()
                if what < 0.5:
                    values = [("call", ("global", "pairs"), [("global", "g")], "one")]
                elif what < 0.8:
                    values = [self.table(inner, 0, r.randint(0, 3))]
                else:
                    values = [("global", "iter"), ("global", "state"), ("num", 0)][:r.randint(1, 3)]
                out.append(("forin", names, values, body))
            elif kind == "closure":
                if r.random() < 0.6:
                    name = self.name()
                    out.append(("local", [name], [self.function(inner, 2)]))
                    inner["vars"].append(name)
                    if r.random() < 0.8:
                        out.append(("call", ("call", ("local", name), [self.expression(inner, 0) for _ in range(r.randint(0, 4))], "one")))
                else:
                    out.append(("call", ("call", ("global", "f"), [self.function(inner, 2)], "one")))
            elif kind == "break":
                if inner["loop"] and i == n - 1:
                    out.append(("break",))
                elif i == n - 1:
                    out.append(("call", ("call", ("global", "f"), [], "one")))
            elif kind == "return":
                if i == n - 1 and scope["depth"] > 0:
                    out.append(("return", [self.expression(inner, 1) for _ in range(r.randint(0, 2))]))
        return out

    def program(self, vararg=None):
        v = self.rng.random() < (0.7 if self.focus == "vararg" else 0.1) if vararg is None else vararg
        scope = {"vars": ["arg"] if v and self.version == 80 else [], "loop": False, "vararg": v, "depth": 0}
        body = self.block(scope, self.size)
        if self.rng.random() < 0.4:
            body.append(("return", [self.expression(scope, 1) for _ in range(self.rng.randint(0, 3))]))
        return body, v


def random_function(rng, focus, version=80, size=12, fpf=None, items=None, tries=20, vararg=None, depth=3):
    for _ in range(tries):
        try:
            body, v = Random(rng, focus, version, size, fpf, depth, items).program(vararg)
            return compile_program(body, version, v, fpf)
        except TooBig:
            continue
    return compile_program([("call", ("call", ("global", "f"), [], "one"))], version)
