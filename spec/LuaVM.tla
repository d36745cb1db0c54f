-------------------------------- MODULE LuaVM ------------------------------
(***************************************************************************)
(* The virtual machines of Lua 5.0 and Lua 5.1 (lvm.c, ldo.c, lfunc.c),    *)
(* as a function from a machine state to the next one.                     *)
(*                                                                         *)
(* What a program does to the outside is a sequence of events: calls of    *)
(* external functions, assignments to globals, operations on opaque        *)
(* values (whose metamethods could observe them), errors, and the return   *)
(* of the main function.  The results of such operations are chosen by the *)
(* environment.  Everything else is silent.                                *)
(*                                                                         *)
(* Values are sequences of integers that start with a tag:                 *)
(*   <<0>> nil            <<1, b>> boolean     <<3, n>> the number n/16    *)
(*   <<3>> \o number      any other number     <<4>> \o bytes  string      *)
(*   <<5, i>> table i     <<6, i>> closure i                               *)
(*   <<7, k>> the library functions type (1) and next (2)                  *)
(*   <<8>> \o name        the initial value of a global: external          *)
(*   <<9, i>> an opaque value made by the environment                      *)
(*   <<98>> the only variable of a generic loop that came to its end: only *)
(*          a closure can still see it                                     *)
(*   <<99>> a register without defined contents                            *)
(***************************************************************************)
EXTENDS LuaVerifier

Nil == <<0>>
Bool(b) == <<1, IF b THEN 1 ELSE 0>>
Undefined == <<99>>
Loose == <<98>>
Small(n) == <<3, n>>                        \* n sixteenths
IsSmallNumber(v) == v[1] = 3 /\ Len(v) = 2
Text(bytes) == <<4>> \o bytes
Truthy(v) == v # Nil /\ v # <<1, 0>>
Outcome(holds) == IF holds THEN 1 ELSE 0     \* which is compared with an operand, and that may be any number
IsOpaque(v) == v[1] \in {8, 9}

NumberValue(number) ==
    \* sixteenths that fit comfortably
    LET scaled == IF number[1] = 1 THEN [number EXCEPT ![3] = @ + 4] ELSE number
    IN  IF IsWhole(scaled) /\ IsSmall(scaled) THEN Small(SmallValue(scaled)) ELSE <<3>> \o number

\* a string constant without its final zero
StringBytes(s) == IF s = <<>> THEN <<>> ELSE SubSeq(s[1], 1, Len(s[1]) - 1)

ConstantValue(c) ==
    CASE c[1] = "nil" -> Nil
      [] c[1] = "bool" -> <<1, c[2]>>
      [] c[1] = "num" -> NumberValue(c[2])
      [] OTHER -> Text(StringBytes(c[2]))

(***************************************************************************)
(* The function tree as a sequence of prototypes, in preorder.             *)
(***************************************************************************)
RECURSIVE Flatten(_, _)
Flatten(fn, acc) ==
    LET me == Len(acc) + 1
        own == [ code |-> fn.code, k |-> TLCEval([i \in 1..Len(fn.consts) |-> ConstantValue(fn.consts[i])]),
                 lines |-> TLCEval([i \in 1..Len(fn.lines) |-> Saturate(fn.lines[i])]),
                 locals |-> TLCEval([i \in 1..Len(fn.locals) |-> <<fn.locals[i][1], Saturate(fn.locals[i][2]), Saturate(fn.locals[i][3])>>]),
                 np |-> fn.params, va |-> fn.vararg, stack |-> fn.stack, kids |-> <<>>, nups |-> fn.nups ]
        Add(a, sub) == LET kid == Len(a) + 1 IN Flatten(sub, [a EXCEPT ![me].kids = Append(@, kid)])
    IN  FoldLeft(Add, Append(acc, own), fn.subs)

Program(main) == Flatten(main, <<>>)

(***************************************************************************)
(* Machine states.                                                         *)
(*   cur    the running frame: f, pc, r (registers), top, open (captured   *)
(*          registers as <<register, cell>>), ups, va (extra arguments),   *)
(*          ret (what to do with the results)                              *)
(*   stk    the suspended frames                                           *)
(*   cells  captured variables: <<0, depth, register>> or <<1, value>>     *)
(*   clos   closures: <<prototype, cells>>                                 *)
(*   heap   tables: functions from keys to values                          *)
(*   glob   global variables that were assigned                            *)
(*   ev     the last event, wait says how its result is used               *)
(*   st     "run", "event", "error" or "done"                              *)
(*   temps  the names of the globals that a translation added              *)
(*   strict whether it matters what the conversion is known not to keep:   *)
(*          arg.n, the variable of a finished generic loop, the errors of  *)
(*          a numeric loop over anything but numbers                       *)
(***************************************************************************)
NoEvent == [ k |-> "none", v |-> <<>>, line |-> 0 ]
EmptyTable == [ key \in {} |-> Nil ]

Blank(n) == TLCEval([i \in 1..n |-> Undefined])

Start(program) ==
    [ cur |-> [ f |-> 1, pc |-> 1, r |-> Blank(program[1].stack), top |-> 0, open |-> <<>>, ups |-> <<>>, va |-> <<>>,
                ret |-> <<"done">> ],
      stk |-> <<>>, cells |-> <<>>, clos |-> <<>>, heap |-> <<>>, glob |-> [ name \in {} |-> Nil ],
      ev |-> NoEvent, wait |-> <<"none">>, st |-> "run", temps |-> {}, strict |-> FALSE ]

Depth(m) == Len(m.stk) + 1

\* luaF_getlocalname: the names of the local variables at the instruction in front of `pc`; the first is in register 0, and so on
InScope(proto, pc) ==
    LET now == pc - 2
        begun(j) == \A q \in 1..j : proto.locals[q][2] <= now
    IN  TLCEval([ j \in 1..Len(proto.locals) |-> <<proto.locals[j][1], begun(j) /\ now < proto.locals[j][3]>> ])

LocalNames(program, m) ==
    LET active(frame) == TLCEval(SelectSeq(InScope(program[frame.f], frame.pc), LAMBDA x : x[2]))
        names(frame) == LET xs == active(frame) IN TLCEval([q \in 1..Len(xs) |-> xs[q][1]])
    IN  TLCEval([ j \in 1..Len(m.stk) + 1 |-> names(IF j <= Len(m.stk) THEN m.stk[j] ELSE m.cur) ])

Get(frame, reg) == IF reg < Len(frame.r) THEN frame.r[reg + 1] ELSE Undefined

\* the register file with `values` placed from register `reg` on
Put(r, reg, values) ==
    LET n == reg + Len(values)
    IN  IF n <= Len(r)
        THEN TLCEval([i \in 1..Len(r) |-> IF i > reg /\ i <= n THEN values[i - reg] ELSE r[i]])
        ELSE TLCEval([i \in 1..n |-> IF i > reg THEN values[i - reg] ELSE IF i <= Len(r) THEN r[i] ELSE Undefined])

PutOne(r, reg, value) == IF reg < Len(r) THEN [r EXCEPT ![reg + 1] = value] ELSE Put(r, reg, <<value>>)

\* after a call nothing at or above `reg` is defined
Forget(r, reg) == TLCEval([i \in 1..Len(r) |-> IF i > reg THEN Undefined ELSE r[i]])

Adjust(values, count) == TLCEval([i \in 1..count |-> IF i <= Len(values) THEN values[i] ELSE Nil])

CellValue(m, cell) ==
    LET c == m.cells[cell]
    IN  IF c[1] = 1 THEN c[2]
        ELSE IF c[2] = Depth(m) THEN Get(m.cur, c[3]) ELSE Get(m.stk[c[2]], c[3])

SetCell(m, cell, value) ==
    LET c == m.cells[cell]
    IN  IF c[1] = 1 THEN [m EXCEPT !.cells[cell] = <<1, value>>]
        ELSE IF c[2] = Depth(m) THEN [m EXCEPT !.cur.r = PutOne(@, c[3], value)]
        ELSE [m EXCEPT !.stk[c[2]].r = PutOne(@, c[3], value)]

\* luaF_close: captured registers from `reg` on move into their cells
Close(m, reg) ==
    IF \A j \in 1..Len(m.cur.open) : m.cur.open[j][1] < reg THEN m
    ELSE LET leaving == { m.cur.open[j] : j \in 1..Len(m.cur.open) }
             moved == { pair \in leaving : pair[1] >= reg }
             value(cell) == LET pair == CHOOSE q \in moved : q[2] = cell IN Get(m.cur, pair[1])
             ids == { pair[2] : pair \in moved }
         IN  [m EXCEPT !.cells = [c \in 1..Len(m.cells) |-> IF c \in ids THEN <<1, value(c)>> ELSE m.cells[c]],
                       !.cur.open = SelectSeq(@, LAMBDA pair : pair[1] < reg)]

(***************************************************************************)
(* Calls and returns.                                                      *)
(***************************************************************************)
\* the frame of a call of closure `c` with `args`; the machine's stk already holds the caller
Enter(program, version, m, c, args, ret) ==
    LET proto == program[m.clos[c][1]]
        fixed == Adjust(args, proto.np)
        extra == IF Len(args) > proto.np THEN SubSeq(args, proto.np + 1, Len(args)) ELSE <<>>
        table == [ key \in { Small(16 * i) : i \in 1..Len(extra) } |-> extra[key[2] \div 16] ]
        counted == (Text(<<110>>) :> Small(16 * Len(extra))) @@ table       \* arg.n
        collects == proto.va # 0 /\ (version = 80 \/ NeedsArgument(proto.va))
        withn == m.strict \/ version = 81
        heap == IF collects THEN Append(m.heap, IF withn THEN counted ELSE table) ELSE m.heap
        nils == TLCEval([j \in 1..proto.stack |-> Nil])
        regs == IF collects THEN Put(Put(nils, 0, fixed), proto.np, << <<5, Len(heap)>> >>) ELSE Put(nils, 0, fixed)
    IN  [m EXCEPT !.heap = heap,
                  !.cur = [ f |-> m.clos[c][1], pc |-> 1, r |-> regs, top |-> 0, open |-> <<>>, ups |-> m.clos[c][2],
                            va |-> IF version = 81 THEN extra ELSE <<>>, ret |-> ret ]]

\* The frame on top of stk receives `values` as `ret` says.  wanted = -1 keeps them all.
PlaceResults(m, reg, wanted, values) ==
    LET kept == IF wanted < 0 THEN values ELSE Adjust(values, wanted)
    IN  [m EXCEPT !.cur.r = Put(Forget(@, reg), reg, kept),
                  !.cur.top = IF wanted < 0 THEN reg + Len(kept) ELSE @,
                  !.st = "run"]

\* End of a TFORLOOP: cur.pc already points behind it, at the jump.
Iterate(version, m, i, values) ==
    IF version = 80
    THEN LET nvar == i.c + 1
             base == i.a + nvar + 2
             results == Adjust(values, nvar)
             r1 == Put(Forget(m.cur.r, base), base, results)
             loose == results[1] = Nil /\ i.c = 0 /\ ~m.strict
             r2 == Put(r1, i.a + 2, IF loose THEN <<Loose>> ELSE results)
         IN  [m EXCEPT !.cur.r = r2, !.cur.pc = IF results[1] = Nil THEN @ + 1 ELSE @, !.st = "run"]
    ELSE LET results == Adjust(values, i.c)
             r1 == Put(Forget(m.cur.r, i.a + 3), i.a + 3, results)
         IN  IF results[1] = Nil
             THEN [m EXCEPT !.cur.r = r1, !.cur.pc = @ + 1, !.st = "run"]
             ELSE [m EXCEPT !.cur.r = PutOne(r1, i.a + 2, results[1]), !.st = "run"]

\* hand `values` to whoever waits for the frame that just ended (ret is its continuation)
Deliver(program, version, m, ret, values) ==
    CASE ret[1] = "done" -> [m EXCEPT !.st = "done", !.ev = [ k |-> "return", v |-> values, line |-> 0 ]]
      [] ret[1] = "call" -> PlaceResults(m, ret[2], ret[3], values)
      [] OTHER -> Iterate(version, m, program[m.cur.f].code[m.cur.pc - 1], values)

Leave(program, version, m, values) ==
    LET closed == Close(m, 0)
        ret == m.cur.ret
    IN  IF ret[1] = "done" THEN Deliver(program, version, closed, ret, values)
        ELSE Deliver(program, version, [closed EXCEPT !.cur = m.stk[Len(m.stk)], !.stk = SubSeq(@, 1, Len(@) - 1)], ret, values)

Event(m, kind, values, line, wait) ==
    [m EXCEPT !.st = "event", !.ev = [ k |-> kind, v |-> values, line |-> line ], !.wait = wait]

Fail(m, what, line) == [m EXCEPT !.st = "error", !.ev = [ k |-> what, v |-> <<>>, line |-> line ]]

RECURSIVE LessTuple(_, _)
LessTuple(a, b) ==
    IF b = <<>> THEN FALSE
    ELSE IF a = <<>> THEN TRUE
    ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
    ELSE LessTuple(Tail(a), Tail(b))

TypeName(v) ==
    CASE v[1] = 0 -> <<110, 105, 108>>
      [] v[1] = 1 -> <<98, 111, 111, 108, 101, 97, 110>>
      [] v[1] = 3 -> <<110, 117, 109, 98, 101, 114>>
      [] v[1] = 4 -> <<115, 116, 114, 105, 110, 103>>
      [] v[1] = 5 -> <<116, 97, 98, 108, 101>>
      [] v[1] \in {6, 7, 8} -> <<102, 117, 110, 99, 116, 105, 111, 110>>
      [] OTHER -> <<117, 115, 101, 114, 100, 97, 116, 97>>

\* next(t, k) in the order of the keys
NextEntry(table, key) ==
    LET later == { k \in DOMAIN table : table[k] # Nil /\ (key = Nil \/ LessTuple(key, k)) }
    IN  IF later = {} THEN <<Nil>>
        ELSE LET k == CHOOSE k \in later : \A o \in later : o = k \/ LessTuple(k, o) IN <<k, table[k]>>

\* A call of `fn`; ret says where the results go.  A tail call has replaced the frame already.
Call(program, version, m, fn, args, ret, line) ==
    CASE fn[1] = 6 -> IF Len(m.stk) > 40 THEN Fail(m, "stack-overflow", 0)
                      ELSE Enter(program, version, [m EXCEPT !.stk = Append(@, m.cur)], fn[2], args, ret)
      [] fn = <<7, 1>> -> IF args = <<>> THEN Fail(m, "argument", line)
                          ELSE Deliver(program, version, m, ret, <<Text(TypeName(args[1]))>>)
      [] fn = <<7, 2>> -> IF args = <<>> \/ args[1][1] # 5 THEN Fail(m, "argument", line)
                          ELSE Deliver(program, version, m, ret, NextEntry(m.heap[args[1][2]], Adjust(args, 2)[2]))
      [] IsOpaque(fn) -> Event(m, "call", <<fn>> \o args, line, ret)
      [] OTHER -> Fail(m, "call-error", line)

(***************************************************************************)
(* Tables and globals.                                                     *)
(***************************************************************************)
NameType == <<116, 121, 112, 101>>
NameNext == <<110, 101, 120, 116>>

ReadGlobal(m, name) ==
    IF name \in DOMAIN m.glob THEN m.glob[name]
    ELSE IF name = NameType THEN <<7, 1>>
    ELSE IF name = NameNext THEN <<7, 2>>
    ELSE IF name \in m.temps THEN Nil
    ELSE <<8>> \o name

Index(table, key) == IF key \in DOMAIN table THEN table[key] ELSE Nil

StoreMany(table, first, values) ==
    \* table[first + i - 1] = values[i]
    TLCEval([ key \in { Small(16 * (first + i - 1)) : i \in 1..Len(values) } |-> values[key[2] \div 16 - first + 1] ] @@ table)

(***************************************************************************)
(* One instruction.                                                        *)
(***************************************************************************)
Floor(n, d) == n \div d

Arithmetic(op, x, y) ==
    \* <<>> when the result is not a small number
    CASE op = "ADD" -> <<x + y>>
      [] op = "SUB" -> <<x - y>>
      [] op = "MUL" -> IF (x > -20000 /\ x < 20000 /\ y > -20000 /\ y < 20000) /\ (x * y) % 16 = 0 THEN <<(x * y) \div 16>> ELSE <<>>
      [] OTHER -> <<>>

\* Values that no operation but those on tables is defined for.
Silent(v) == v[1] \in {0, 1, 5, 6, 7}

\* Operands are joined from the last to the first; what an opaque value is joined with is opaque again.
Joinable(operands) ==
    LET n == Len(operands)
        others == { j \in 1..n : operands[j][1] \notin {3, 4} }
        j == CHOOSE k \in others : \A o \in others : o <= k
    IN  others = {} \/ IsOpaque(operands[j]) \/ (j = n /\ IsOpaque(operands[n - 1]))

Step(program, version, fpf, m) ==
    LET f == m.cur
        proto == program[f.f]
        i == proto.code[f.pc]
        line == IF proto.lines = <<>> THEN -1 ELSE proto.lines[f.pc]
        next == [m EXCEPT !.cur.pc = f.pc + 1]
        R(reg) == Get(f, reg)
        RK(v) == IF v < 0 THEN proto.k[ConstantIndex(v) + 1] ELSE R(v)
        Set(reg, value) == [m EXCEPT !.cur.pc = f.pc + 1, !.cur.r = PutOne(@, reg, value)]
        Skip(condition) == [m EXCEPT !.cur.pc = IF condition THEN f.pc + 2 ELSE f.pc + 1]
        Wait(kind, values, wait) == Event(next, kind, values, line, wait)
        Binary(op, x, y) ==
            IF IsSmallNumber(x) /\ IsSmallNumber(y) /\ Arithmetic(op, x[2], y[2]) # <<>>
            THEN Set(i.a, Small(Arithmetic(op, x[2], y[2])[1]))
            ELSE IF ~IsOpaque(x) /\ ~IsOpaque(y) /\ (Silent(x) \/ Silent(y)) THEN Fail(m, "arith-error", line)
            ELSE Wait(op, <<x, y>>, <<"set", i.a>>)
        \* R(a) := object[key]
        Read(object, key, machine) ==
            IF object[1] = 5 THEN [machine EXCEPT !.cur.r = PutOne(@, i.a, Index(m.heap[object[2]], key))]
            ELSE IF IsOpaque(object) THEN Event(machine, "index", <<object, key>>, line, <<"set", i.a>>)
            ELSE Fail(m, "index-error", line)
        Args(first, count) == TLCEval([j \in 1..(IF count < 0 THEN f.top - first ELSE count) |-> R(first + j - 1)])
        Compare(op, x, y) ==
            IF IsSmallNumber(x) /\ IsSmallNumber(y)
            THEN LET holds == IF op = "LT" THEN x[2] < y[2] ELSE x[2] <= y[2]
                 IN  Skip(Outcome(holds) # i.a)
            ELSE IF x[1] # y[1] \/ Silent(x) THEN Fail(m, "compare-error", line)
            ELSE Wait(op, <<x, y>>, <<"test", i.a>>)
    IN  CASE i.o = "MOVE" -> Set(i.a, R(i.b))
          [] i.o = "LOADK" -> Set(i.a, proto.k[i.x + 1])
          [] i.o = "LOADBOOL" -> [m EXCEPT !.cur.r = PutOne(@, i.a, Bool(i.b # 0)), !.cur.pc = IF i.c # 0 THEN f.pc + 2 ELSE f.pc + 1]
          [] i.o = "LOADNIL" -> [next EXCEPT !.cur.r = Put(@, i.a, [j \in 1..(i.b - i.a + 1) |-> Nil])]
          [] i.o = "GETUPVAL" ->
               LET value == CellValue(m, f.ups[i.b + 1])
               IN  IF value = Loose THEN Fail(m, "for-variable", line) ELSE Set(i.a, value)
          [] i.o = "SETUPVAL" -> SetCell(next, f.ups[i.b + 1], R(i.a))
          [] i.o = "GETGLOBAL" -> Set(i.a, ReadGlobal(m, Tail(proto.k[i.x + 1])))
          [] i.o = "SETGLOBAL" ->
               LET name == Tail(proto.k[i.x + 1])
                   assigned == [next EXCEPT !.glob = (name :> R(i.a)) @@ @]
               IN  IF name \in m.temps THEN assigned
                   ELSE Event(assigned, "setglobal", <<proto.k[i.x + 1], R(i.a)>>, line, <<"none">>)
          [] i.o = "GETTABLE" -> Read(R(i.b), RK(i.c), next)
          [] i.o = "SETTABLE" ->
               LET object == R(i.a)
                   key == RK(i.b)
               IN  IF object[1] = 5
                   THEN IF key = Nil THEN Fail(m, "index-nil", line)
                        ELSE [next EXCEPT !.heap[object[2]] = (key :> RK(i.c)) @@ @]
                   ELSE IF IsOpaque(object) THEN Wait("setindex", <<object, key, RK(i.c)>>, <<"none">>)
                   ELSE Fail(m, "index-error", line)
          [] i.o = "NEWTABLE" -> [Set(i.a, <<5, Len(m.heap) + 1>>) EXCEPT !.heap = Append(@, EmptyTable)]
          [] i.o = "SELF" ->
               LET object == R(i.b)
                   key == RK(i.c)
               IN  Read(object, key, [next EXCEPT !.cur.r = PutOne(@, i.a + 1, object)])
          [] i.o \in {"ADD", "SUB", "MUL", "DIV", "MOD", "POW"} -> Binary(i.o, RK(i.b), RK(i.c))
          [] i.o = "UNM" ->
               LET x == R(i.b)
               IN  IF IsSmallNumber(x) THEN Set(i.a, Small(-x[2]))
                   ELSE IF Silent(x) THEN Fail(m, "arith-error", line)
                   ELSE Wait("UNM", <<x>>, <<"set", i.a>>)
          [] i.o = "NOT" -> Set(i.a, Bool(~Truthy(R(i.b))))
          [] i.o = "LEN" ->
               LET x == R(i.b)
               IN  IF x[1] \in {0, 1, 3, 6, 7} THEN Fail(m, "length-error", line) ELSE Wait("LEN", <<x>>, <<"set", i.a>>)
          [] i.o = "CONCAT" -> 
               LET operands == [j \in 1..(i.c - i.b + 1) |-> R(i.b + j - 1)]
               IN  IF ~Joinable(operands) THEN Fail(m, "concat-error", line)
                   ELSE Wait("CONCAT", operands, <<"set", i.a>>)
          [] i.o = "JMP" -> [m EXCEPT !.cur.pc = f.pc + 1 + i.x]
          [] i.o = "EQ" ->
               LET x == RK(i.b)
                   y == RK(i.c)
               IN  IF x # y /\ x[1] = 9 /\ y[1] = 9 THEN Wait("EQ", <<x, y>>, <<"test", i.a>>)
                   ELSE Skip(Outcome(x = y) # i.a)
          [] i.o \in {"LT", "LE"} -> Compare(i.o, RK(i.b), RK(i.c))
          [] i.o = "TEST" ->
               IF version = 80
               THEN IF Truthy(R(i.b)) = (i.c # 0) THEN Set(i.a, R(i.b)) ELSE Skip(TRUE)
               ELSE Skip(Outcome(~Truthy(R(i.a))) = i.c)
          [] i.o = "TESTSET" -> IF Outcome(~Truthy(R(i.b))) # i.c THEN Set(i.a, R(i.b)) ELSE Skip(TRUE)
          [] i.o = "CALL" -> Call(program, version, next, R(i.a), Args(i.a + 1, i.b - 1), <<"call", i.a, i.c - 1>>, line)
          [] i.o = "TAILCALL" ->
               LET fn == R(i.a)
                   args == Args(i.a + 1, i.b - 1)
               IN  IF fn[1] = 6
                   THEN LET closed == Close(m, 0)
                        IN  Enter(program, version, closed, fn[2], args, f.ret)
                   ELSE Call(program, version, next, fn, args, <<"call", i.a, -1>>, line)
          [] i.o = "RETURN" -> Leave(program, version, m, Args(i.a, i.b - 1))
          [] i.o = "FORLOOP" ->
               LET index == R(i.a)
                   limit == R(i.a + 1)
                   step == R(i.a + 2)
               IN  IF version = 81 /\ ~(IsSmallNumber(index) /\ IsSmallNumber(limit) /\ IsSmallNumber(step))
                   THEN Fail(m, "for-fault", line)      \* Lua 5.1 relies on FORPREP having checked them
                   ELSE IF ~IsSmallNumber(index) THEN Fail(m, "for-initial", line)
                   ELSE IF ~IsSmallNumber(limit) THEN Fail(m, "for-limit", line)
                   ELSE IF ~IsSmallNumber(step) THEN Fail(m, "for-step", line)
                   ELSE LET now == index[2] + step[2]
                            again == IF step[2] > 0 THEN now <= limit[2] ELSE now >= limit[2]
                            r1 == PutOne(f.r, i.a, Small(now))
                        IN  IF ~again THEN next
                            ELSE [m EXCEPT !.cur.pc = f.pc + 1 + i.x,
                                           !.cur.r = IF version = 81 THEN PutOne(r1, i.a + 3, Small(now)) ELSE r1]
          [] i.o = "FORPREP" ->
               IF ~IsSmallNumber(R(i.a)) THEN Fail(m, "for-initial", line)
               ELSE IF ~IsSmallNumber(R(i.a + 1)) THEN Fail(m, "for-limit", line)
               ELSE IF ~IsSmallNumber(R(i.a + 2)) THEN Fail(m, "for-step", line)
               ELSE [m EXCEPT !.cur.pc = f.pc + 1 + i.x, !.cur.r = PutOne(@, i.a, Small(R(i.a)[2] - R(i.a + 2)[2]))]
          [] i.o = "TFORPREP" ->
               IF R(i.a)[1] = 5
               THEN [m EXCEPT !.cur.pc = f.pc + 1 + i.x, !.cur.r = Put(@, i.a, <<ReadGlobal(m, NameNext), R(i.a)>>)]
               ELSE [m EXCEPT !.cur.pc = f.pc + 1 + i.x]
          [] i.o = "TFORLOOP" ->
               LET base == IF version = 80 THEN i.a + i.c + 3 ELSE i.a + 3
               IN  Call(program, version, [next EXCEPT !.cur.r = Put(Forget(@, base), base, Args(i.a, 3))],
                        R(i.a), Args(i.a + 1, 2), <<"iterate">>, line)
          [] i.o \in {"SETLIST", "SETLISTO"} ->
               LET data == version = 81 /\ i.c = 0
                   batch == IF data THEN proto.code[f.pc + 1].x ELSE i.c
                   open == IF version = 80 THEN i.o = "SETLISTO" ELSE i.b = 0
                   count == IF open THEN f.top - i.a - 1 ELSE IF version = 80 THEN (i.x % fpf) + 1 ELSE i.b
                   before == IF version = 80 THEN i.x - (i.x % fpf) ELSE (batch - 1) * fpf
                   object == R(i.a)
                   moved == [m EXCEPT !.cur.pc = IF data THEN f.pc + 2 ELSE f.pc + 1]
               IN  IF object[1] # 5 THEN Fail(m, "setlist-error", line)
                   ELSE [moved EXCEPT !.heap[object[2]] = StoreMany(@, before + 1, [j \in 1..count |-> R(i.a + j)])]
          [] i.o = "CLOSE" -> Close(next, i.a)
          [] i.o = "CLOSURE" ->
               LET kid == proto.kids[i.x + 1]
                   nup == program[kid].nups
                   \* capture the variables one after the other; acc is <<cells, open, ups>>
                   Capture(acc, j) ==
                       LET p == proto.code[f.pc + j]
                       IN  IF p.o = "GETUPVAL" THEN <<acc[1], acc[2], Append(acc[3], f.ups[p.b + 1])>>
                           ELSE LET known == { q \in 1..Len(acc[2]) : acc[2][q][1] = p.b }
                                IN  IF known # {} THEN <<acc[1], acc[2], Append(acc[3], acc[2][CHOOSE q \in known : TRUE][2])>>
                                    ELSE << Append(acc[1], <<0, Depth(m), p.b>>),
                                            Append(acc[2], <<p.b, Len(acc[1]) + 1>>),
                                            Append(acc[3], Len(acc[1]) + 1) >>
                   \* the closure's own register may be captured, so the closure is stored first
                   all == FoldLeft(Capture, <<m.cells, f.open, <<>>>>, [j \in 1..nup |-> j])
               IN  [m EXCEPT !.clos = Append(@, <<kid, all[3]>>),
                             !.cells = all[1],
                             !.cur.open = all[2],
                             !.cur.pc = f.pc + 1 + nup,
                             !.cur.r = PutOne(@, i.a, <<6, Len(m.clos) + 1>>)]
          [] i.o = "VARARG" ->
               LET wanted == i.b - 1
                   values == IF wanted < 0 THEN f.va ELSE Adjust(f.va, wanted)
               IN  [next EXCEPT !.cur.r = Put(@, i.a, values), !.cur.top = IF wanted < 0 THEN i.a + Len(values) ELSE @]

(***************************************************************************)
(* Runs until something happens that the outside can see, or fuel runs out.*)
(***************************************************************************)
RECURSIVE Run(_, _, _, _, _)
Run(program, version, fpf, m, fuel) ==
    IF m.st # "run" THEN m
    ELSE IF fuel <= 0 THEN [m EXCEPT !.st = "spent"]
    ELSE LET block == FoldLeft(LAMBDA mm, step : IF mm.st # "run" THEN mm ELSE Step(program, version, fpf, mm),
                               m, [step \in 1..32 |-> step])
         IN  Run(program, version, fpf, block, fuel - 32)

\* The environment answers the event with `values` (a single value for everything but calls).
Resume(program, version, m, values) ==
    LET w == m.wait
        go == [m EXCEPT !.st = "run", !.wait = <<"none">>, !.ev = NoEvent]
    IN  CASE w[1] = "none" -> go
          [] w[1] = "set" -> [go EXCEPT !.cur.r = PutOne(@, w[2], values[1])]
          [] w[1] = "test" -> [go EXCEPT !.cur.pc = IF Outcome(Truthy(values[1])) # w[2] THEN @ + 1 ELSE @]
          [] OTHER -> Deliver(program, version, go, w, values)
=============================================================================
