---------------------------- MODULE LuaVerifier ----------------------------
(***************************************************************************)
(* The bytecode verifiers of the Lua loaders (luaG_checkcode in ldebug.c   *)
(* of Lua 5.0 and Lua 5.1): what a virtual machine demands of a function   *)
(* before it runs it.  Complaint is "" for an acceptable function, else a  *)
(* word for the rule that is broken.                                       *)
(***************************************************************************)
EXTENDS LuaChunk

SetsA == { "MOVE", "LOADK", "LOADBOOL", "LOADNIL", "GETUPVAL", "GETGLOBAL", "GETTABLE", "NEWTABLE", "SELF", "ADD", "SUB",
           "MUL", "DIV", "MOD", "POW", "UNM", "NOT", "LEN", "CONCAT", "TESTSET", "CALL", "TAILCALL", "FORLOOP", "FORPREP",
           "CLOSURE", "VARARG" }

Tests(version) == IF version = 80 THEN { "EQ", "LT", "LE", "TEST", "TFORLOOP" }
                  ELSE { "EQ", "LT", "LE", "TEST", "TESTSET", "TFORLOOP" }

OpenEnds(version) == IF version = 80 THEN { "CALL", "TAILCALL", "RETURN", "SETLISTO" } ELSE { "CALL", "TAILCALL", "RETURN", "SETLIST" }

KindsOf(version) == [ name \in { Opcodes(version)[i][1] : i \in 1..Len(Opcodes(version)) } |->
                        LET entry == Opcodes(version)[CHOOSE i \in 1..Len(Opcodes(version)) : Opcodes(version)[i][1] = name]
                        IN  <<entry[2], IF Len(entry) > 2 THEN entry[3] ELSE "N">> ]
Kinds50 == TLCEval(KindsOf(80))
Kinds51 == TLCEval(KindsOf(81))

\* Does the instruction take or pass on an open list of values?
OpenConsumer(version, i) ==
    /\ i.o \in OpenEnds(version)
    /\ i.o = "SETLISTO" \/ i.b = 0

IsString(fn, k) == k < Len(fn.consts) /\ fn.consts[k + 1][1] = "str"

\* pc counts from 1 here; the destination of a jump is pc + 1 + x.
Complaint1(fn, version, dialect, pc) ==
    LET \* beyond a million all values are equally wrong
        Cap(v) == IF v > 1000000 THEN 1000000 ELSE IF v < -1000000 THEN -1000000 ELSE v
        i == [fn.code[pc] EXCEPT !.a = Cap(@), !.b = IF IsConstant(@) THEN @ ELSE Cap(@), !.c = IF IsConstant(@) THEN @ ELSE Cap(@),
                                 !.x = Cap(@)]
        n == Len(fn.code)
        kinds == (IF version = 80 THEN Kinds50 ELSE Kinds51)[i.o]
        Reg(r) == r >= 0 /\ r < fn.stack
        RK(v) == IF IsConstant(v) THEN ConstantIndex(v) < Len(fn.consts) ELSE Reg(v)
        Ok(kind, v) == CASE kind = "R" -> Reg(v) [] kind = "K" -> RK(v) [] OTHER -> TRUE
        JumpOk(x) == /\ pc + 1 + x >= 1
                     /\ pc + 1 + x <= n
                     /\ fn.code[pc + 1 + x].o # "DATA"
        SkipOk == pc + 2 <= n
    IN  IF i.o = "DATA" THEN ""
        ELSE IF ~Reg(i.a) THEN "register-a"
        ELSE IF version = 81 /\ ~i.u THEN "unused-operand"
        ELSE IF kinds[1] \notin {"X", "S"} /\ ~(Ok(kinds[1], i.b) /\ Ok(kinds[2], i.c)) THEN "operand"
        ELSE IF i.o = "LOADK" /\ i.x >= Len(fn.consts) THEN "constant"
        ELSE IF i.o \in Tests(version) /\ ~(SkipOk /\ fn.code[pc + 1].o = "JMP") THEN "test"
        ELSE CASE i.o = "LOADBOOL" /\ i.c # 0 ->
                    IF i.c = 1 /\ SkipOk /\ ~(fn.code[pc + 1].o = "SETLIST" /\ version = 81 /\ fn.code[pc + 1].c = 0) THEN ""
                    ELSE IF i.c # 1 THEN "loadbool" ELSE "loadbool-skip"
               [] i.o = "LOADNIL" /\ i.b < i.a -> "loadnil"
               [] i.o \in {"GETUPVAL", "SETUPVAL"} -> IF i.b < fn.nups THEN "" ELSE "upvalue"
               [] i.o \in {"GETGLOBAL", "SETGLOBAL"} -> IF IsString(fn, i.x) THEN "" ELSE "global"
               [] i.o = "SELF" -> IF Reg(i.a + 1) THEN "" ELSE "self"
               [] i.o = "CONCAT" -> IF i.b < i.c THEN "" ELSE "concat"
               [] i.o = "TFORLOOP" ->
                    IF version = 80 THEN IF Reg(i.a + i.c + 5) THEN "" ELSE "tforloop"
                    ELSE IF i.c >= 1 /\ Reg(i.a + 2 + i.c) THEN "" ELSE "tforloop"
               [] i.o \in {"FORLOOP", "FORPREP", "TFORPREP"} ->
                    IF ~Reg(IF version = 80 THEN i.a + 2 ELSE i.a + 3) THEN "for"
                    ELSE IF JumpOk(i.x) THEN "" ELSE "jump"
               [] i.o = "JMP" -> IF JumpOk(i.x) THEN "" ELSE "jump"
               [] i.o \in {"CALL", "TAILCALL"} ->
                    IF i.b # 0 /\ ~Reg(i.a + i.b - 1) THEN "call"
                    ELSE IF i.c = 0 \/ i.o = "TAILCALL"
                    THEN IF i.o = "TAILCALL" /\ i.c # 0 THEN "tailcall"
                         ELSE IF pc < n /\ OpenConsumer(version, fn.code[pc + 1]) THEN "" ELSE "open"
                    ELSE IF i.c = 1 \/ Reg(i.a + i.c - 2) THEN "" ELSE "call-results"
               [] i.o = "RETURN" -> IF i.b <= 1 \/ Reg(i.a + i.b - 2) THEN "" ELSE "return"
               [] i.o = "SETLIST" ->
                    IF version = 80 THEN IF Reg(i.a + (i.x % dialect.fpf) + 1) THEN "" ELSE "setlist"
                    ELSE IF i.b > 0 /\ ~Reg(i.a + i.b) THEN "setlist"
                    ELSE IF i.c = 0 /\ pc = n THEN "setlist-data" ELSE ""
               [] i.o = "VARARG" ->
                    IF (fn.vararg \div 2) % 2 = 0 \/ (fn.vararg \div 4) % 2 = 1 THEN "vararg"
                    ELSE IF i.b = 0 THEN IF pc < n /\ OpenConsumer(version, fn.code[pc + 1]) THEN "" ELSE "open"
                    ELSE IF i.b = 1 \/ Reg(i.a + i.b - 2) THEN "" ELSE "vararg-results"
               [] i.o = "CLOSURE" ->
                    IF i.x >= Len(fn.subs) THEN "closure"
                    ELSE LET nup == fn.subs[i.x + 1].nups
                         IN  IF /\ pc + nup < n
                                /\ \A j \in 1..nup : fn.code[pc + j].o \in {"MOVE", "GETUPVAL"}
                             THEN "" ELSE "closure-upvalues"
               [] OTHER -> ""

HasArgument(vararg) == vararg % 2 = 1
NeedsArgument(vararg) == (vararg \div 4) % 2 = 1

Complaint(fn, version, dialect) ==
    LET n == Len(fn.code)
        wrong == { pc \in 1..n : Complaint1(fn, version, dialect, pc) # "" }
        first == CHOOSE pc \in wrong : \A other \in wrong : pc <= other
    IN  IF fn.stack > dialect.limit THEN "stack-limit"
        ELSE IF version = 81 /\ fn.params + (fn.vararg % 2) > fn.stack THEN "parameters"
        ELSE IF version = 80 /\ fn.params + (IF fn.vararg # 0 THEN 1 ELSE 0) > fn.stack THEN "parameters"
        ELSE IF version = 81 /\ NeedsArgument(fn.vararg) /\ ~HasArgument(fn.vararg) THEN "vararg-flags"
        ELSE IF Len(fn.upnames) > fn.nups THEN "upvalue-names"
        ELSE IF Len(fn.lines) # n /\ Len(fn.lines) # 0 THEN "lines"
        ELSE IF n = 0 THEN "empty"
        ELSE IF fn.code[n].o # "RETURN" THEN "no-return"
        ELSE IF wrong # {} THEN Complaint1(fn, version, dialect, first)
        ELSE ""

RECURSIVE ComplaintDeep(_, _, _)
ComplaintDeep(fn, version, dialect) ==
    LET own == Complaint(fn, version, dialect)
    IN  IF own # "" THEN own
        ELSE FoldLeft(LAMBDA acc, sub : IF acc # "" THEN acc ELSE ComplaintDeep(sub, version, dialect), "", fn.subs)

Acceptable(fn, version, dialect) == ComplaintDeep(fn, version, dialect) = ""
=============================================================================
