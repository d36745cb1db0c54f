------------------------------ MODULE Contract -----------------------------
(***************************************************************************)
(* What a call unify(input, format, settings) promises, as a relation      *)
(* between the input, the configuration, and the observation               *)
(*   tag  "ok", "err", "panic", "crash" or "hang"                          *)
(*   err, arg   the name and the payload of the error                      *)
(*   out        the bytes returned                                         *)
(* Each rule yields "" when it is kept and otherwise what is wrong.        *)
(***************************************************************************)
EXTENDS LuaVM

First(list) == LET bad == SelectSeq(list, LAMBDA c : c # "") IN IF bad = <<>> THEN "" ELSE bad[1]

\* all functions of a chunk in preorder
RECURSIVE Functions(_)
Functions(fn) == FoldLeft(LAMBDA acc, sub : acc \o Functions(sub), <<fn>>, fn.subs)

\* the first complaint of Rule over the pairs of functions of two chunks
OverPairs(s, d, Rule(_, _)) ==
    LET fs == Functions(s)
        fd == Functions(d)
        same == Len(fs) = Len(fd) /\ \A i \in 1..Len(fs) : Len(fs[i].subs) = Len(fd[i].subs)
    IN  IF ~same THEN "nested-functions"
        ELSE FoldLeft(LAMBDA acc, i : IF acc # "" THEN acc ELSE Rule(fs[i], fd[i]), "", [i \in 1..Len(fs) |-> i])

(***************************************************************************)
(* A case: the configuration, the input, and how they are to be read.      *)
(***************************************************************************)
Reading(case) ==
    LET settings == SettingsOf(case.set)
        format == FormatOf(case.fmt)
        header == Header(case.in, settings)
        chunk == ReadChunk(case.in, settings)
    IN  [ settings |-> settings, format |-> format, header |-> header, chunk |-> chunk ]

\* Input that is already what the caller asked for.
PassThrough(r, input) ==
    /\ r.header.e = ""
    /\ r.header.v.version = 81
    /\ r.header.v.format = r.format
    /\ r.settings.lua51 = r.settings.output
    /\ StartsWith(input, r.settings.output.sig)

\* The same settings for reading back what was written.
OutputSettings(settings) == [settings EXCEPT !.lua51 = settings.output, !.lua50.sig = settings.output.sig]

ReadOutput(case, r) == ReadChunk(case.out, OutputSettings(r.settings))

SourceDialect(r) == IF r.header.v.version = 80 THEN r.settings.lua50 ELSE r.settings.lua51

\* Does the conversion leave the instructions alone except for their encoding?
Direct(r) == r.header.v.version = 81 /\ r.settings.lua51.fpf = r.settings.output.fpf

(***************************************************************************)
(* Totality.                                                               *)
(***************************************************************************)
Total(case) == IF case.tag \in {"ok", "err"} THEN "" ELSE case.tag

(***************************************************************************)
(* Rejections: what the input itself has wrong.                            *)
(***************************************************************************)
IsError(case, name, payload) == case.tag = "err" /\ case.err = name /\ case.arg = payload

HeaderVerdict(case, r) ==
    IF r.header.e = "" THEN ""
    ELSE IF IsError(case, r.header.e, r.header.a) THEN "" ELSE "header:" \o r.header.e

\* The errors by which a conversion may refuse a chunk it can read.
ConversionErrors == { "StackTooLarge", "ValueTooBigForOperand", "UnexpectedForwardJump", "FloatPrecisionLoss", "IntegerOverflow",
                      "InvalidInstructionLayout" }

BodyVerdict(case, r) ==
    IF r.header.e # "" \/ PassThrough(r, case.in) THEN ""
    ELSE IF r.chunk.e = "TooDeep" THEN IF case.tag = "err" THEN "" ELSE "accepted-too-deep"
    ELSE IF r.chunk.e # "" THEN IF IsError(case, r.chunk.e, r.chunk.a) THEN "" ELSE "body:" \o r.chunk.e
    ELSE IF r.chunk.v.spare > 0 THEN IF IsError(case, "InputTooLong", <<>>) THEN "" ELSE "body:InputTooLong"
    ELSE IF case.tag = "err" /\ case.err \notin ConversionErrors THEN "unjustified:" \o case.err
    ELSE ""

\* As above for inputs that may be refused for several reasons at once.
LenientBodyVerdict(case, r) ==
    IF case.tag = "err" /\ case.err \in ConversionErrors THEN "" ELSE BodyVerdict(case, r)

PassVerdict(case, r) ==
    IF r.header.e = "" /\ PassThrough(r, case.in) /\ r.chunk.e = "" /\ r.chunk.v.spare = 0
    THEN IF case.tag # "ok" THEN "pass-through-refused" ELSE IF case.out # case.in THEN "pass-through-changed" ELSE ""
    ELSE ""

OutputHeaderVerdict(case, r) ==
    IF case.tag # "ok" \/ PassThrough(r, case.in) THEN ""
    ELSE IF StartsWith(case.out, OutputHeader(r.format, r.settings)) THEN "" ELSE "output-header"

\* A chunk that was written must be a chunk of the requested kind, and nothing more.
OutputReads(case, r) ==
    LET o == ReadOutput(case, r)
    IN  IF o.e # "" THEN "output-unreadable" ELSE IF o.v.spare # 0 THEN "output-trailing"
        ELSE IF o.v.version # 81 THEN "output-version"
        ELSE IF o.v.format # r.format /\ ~PassThrough(r, case.in) THEN "output-format" ELSE ""

(***************************************************************************)
(* Which chunks can be represented in the output format.                   *)
(***************************************************************************)
Power(n) == IF n >= 31 THEN BIG ELSE 2^n

\* "yes", "no", or "?" when a saturated value leaves it open
Fits(i, out) ==
    LET l == out.lay
        Top(n) == Power(n) - 1
        Plain(v, size) == IF v = BIG /\ size > 30 THEN "?" ELSE IF v <= Top(size) THEN "yes" ELSE "no"
        RK(v, size) == LET index == IF IsConstant(v) THEN ConstantIndex(v) ELSE v
                           value == IF IsConstant(v) THEN index + Power(l.bs - 1) ELSE index
                       IN  IF index = BIG \/ l.bs > 30 THEN "?"
                           ELSE IF index > Top(l.bs - 1) \/ (size < l.bs /\ value > Top(size)) THEN "no" ELSE "yes"
        kinds == Kinds51[i.o]
        Arg(kind, v, size) == CASE kind \in {"N", "I"} -> "yes" [] kind = "K" -> RK(v, size) [] OTHER -> Plain(v, size)
        answers == { Plain(i.a, l.as) } \cup
                   (CASE kinds[1] = "X" -> { Plain(i.x, l.xs) }
                      [] kinds[1] = "S" -> { IF l.xs > 31 THEN (IF i.x = BIG \/ i.x = -BIG THEN "?" ELSE "yes")
                                             ELSE IF i.x <= Power(l.xs - 1) /\ i.x >= -(Power(l.xs - 1) - 1) THEN "yes" ELSE "no" }
                      [] OTHER -> { Arg(kinds[1], i.b, l.bs), Arg(kinds[2], i.c, l.cs) })
        \* registers that a register-or-constant operand could not name exist in no Lua build
        odd == i.o = "TESTSET" /\ i.b >= Power(l.bs - 1)
    IN  IF "no" \in answers THEN "no" ELSE IF "?" \in answers \/ odd THEN "?" ELSE "yes"

\* Does the instruction fit once it is the Lua 5.1 instruction of the same meaning?
FitsTranslated(i, r) ==
    IF i.o = "DATA" THEN (IF i.x = BIG THEN "?" ELSE "yes")
    ELSE IF i.o = "TEST" /\ r.header.v.version = 80
    THEN LET full == Fits([i EXCEPT !.o = "TESTSET"], r.settings.output)
             short == Fits(i, r.settings.output)
         IN  IF full = "no" /\ short # "no" /\ i.a = i.b THEN "?" ELSE full
    ELSE Fits(i, r.settings.output)

\* Can the number be written to the requested number format?
NumberFits(number, format) ==
    IF format.integral THEN FitsInteger(number, format.nw)
    ELSE TRUE
\* An integer must keep its value when it becomes a double; the narrower float rounds.
IntegerFits(number, from, format) == ~(from.integral /\ ~format.integral) \/ RoundToFloat(number, 8) = number

WrittenNumber(number, format) ==
    IF format.integral THEN (IF number[1] = 0 THEN <<0, 0, 0>> ELSE number) ELSE RoundToFloat(number, format.nw)

NumbersFit(fn, from, to) ==
    \A j \in 1..Len(fn.consts) :
        fn.consts[j][1] = "num" => NumberFits(fn.consts[j][2], to) /\ IntegerFits(fn.consts[j][2], from, to)

WordFits(word, width) == width = 8 \/ FitsSigned32(word)

\* Line numbers and the like must fit the requested integers for the call to have a meaning.
IntegersFit(fn, format) ==
    /\ WordFits(fn.line, format.iw) /\ WordFits(fn.last, format.iw)
    /\ \A j \in 1..Len(fn.lines) : WordFits(fn.lines[j], format.iw)
    /\ \A j \in 1..Len(fn.locals) : WordFits(fn.locals[j][2], format.iw) /\ WordFits(fn.locals[j][3], format.iw)

\* What a conversion that may add instructions certainly manages.
Comfortable(fn, r) ==
    LET out == r.settings.output
        l == out.lay
        n == Len(fn.code)
        widest == FoldLeft(LAMBDA acc, i : IF i.o = "TFORLOOP" /\ i.c > acc THEN i.c ELSE acc, 0, fn.code)
        setlists == \E j \in 1..n : fn.code[j].o \in {"SETLIST", "SETLISTO"}
        room == 6 + widest + (IF setlists THEN out.fpf ELSE 0)
        \* the index of the last element a SETLIST stores, of which the page in the output is part of its operand
        Last50(i) == i.x
        Last51(i) == IF i.c > 10000 \/ r.settings.lua51.fpf > 10000 THEN BIG ELSE (i.c - 1) * r.settings.lua51.fpf + fn.stack
        numbered == \A j \in 1..n :
                       LET i == fn.code[j]
                           last == IF r.header.v.version = 80 THEN Last50(i) ELSE Last51(i)
                       IN  i.o \in {"SETLIST", "SETLISTO"} => last \div out.fpf < Power(l.cs) - 2
    IN  /\ numbered
        /\ fn.stack + room <= out.limit /\ fn.stack + room <= 250
        /\ fn.stack + room < Power(l.as) /\ fn.stack + room < Power(l.bs - 1) /\ fn.stack + room < Power(l.cs)
        /\ l.cs >= l.bs
        /\ \A j \in 1..n :
              LET i == fn.code[j]
              IN  /\ IsConstant(i.b) => ConstantIndex(i.b) < Power(l.bs - 1)
                  /\ IsConstant(i.c) => ConstantIndex(i.c) < Power(l.bs - 1)
                  /\ i.o \in {"GETUPVAL", "SETUPVAL", "LOADBOOL"} => i.b < Power(l.bs)
        /\ Len(fn.consts) + 3 * n + 4 < Power(l.xs)
        /\ 16 * n + 16 < Power(l.xs - 1)

\* Registers that a conversion may need at most.
StackNeed(fn, r) ==
    LET need(i) == CASE i.o = "FORLOOP" -> i.a + 4
                     [] i.o = "TFORLOOP" -> IF i.a + 2 * i.c + 4 > i.a + i.c + 6 THEN i.a + 2 * i.c + 4 ELSE i.a + i.c + 6
                     [] i.o = "TFORPREP" -> i.a + 3
                     [] OTHER -> 0
        setlists == \E j \in 1..Len(fn.code) : fn.code[j].o \in {"SETLIST", "SETLISTO"}
        before == IF r.header.v.version = 80 THEN r.settings.lua50.fpf ELSE r.settings.lua51.fpf
        moved == IF setlists /\ before # r.settings.output.fpf THEN r.settings.output.fpf ELSE 0
        extra == IF fn.vararg # 0 /\ r.header.v.version = 80 THEN fn.params + 3 ELSE 0
        first == IF extra > fn.stack THEN extra ELSE fn.stack
    IN  moved + (IF r.header.v.version = 80 THEN FoldLeft(LAMBDA acc, i : IF need(i) > acc THEN need(i) ELSE acc, first, fn.code) ELSE first)

\* Lua 5.0 instructions that mean the same in Lua 5.1.
SimpleOps == { "MOVE", "LOADK", "LOADBOOL", "LOADNIL", "GETUPVAL", "GETGLOBAL", "GETTABLE", "SETGLOBAL", "SETUPVAL", "SETTABLE",
               "NEWTABLE", "SELF", "ADD", "SUB", "MUL", "DIV", "POW", "UNM", "NOT", "CONCAT", "JMP", "EQ", "LT", "LE", "TEST",
               "CALL", "TAILCALL", "RETURN", "CLOSE", "CLOSURE" }
IsSimple(fn) == fn.vararg = 0 /\ \A j \in 1..Len(fn.code) : fn.code[j].o \in SimpleOps

\* A chunk that a conversion must not refuse, and the refusals that are right.
FitVerdict(case, r) ==
    IF r.chunk.e # "" \/ r.chunk.v.spare > 0 \/ PassThrough(r, case.in) THEN ""
    ELSE LET fs == Functions(r.chunk.v.main)
             dialect == SourceDialect(r)
             out == r.settings.output
             each == 1..Len(fs)
             all == UNION { { FitsTranslated(fs[j].code[q], r) : q \in 1..Len(fs[j].code) } : j \in each }
             numbers == \A j \in each : NumbersFit(fs[j], r.chunk.v.format, r.format)
             wordwide == out.lay.total <= 8 * r.format.cw
             tall == { j \in each : fs[j].stack > out.limit }
             raw == \E j \in each : \E q \in 1..Len(fs[j].code) : fs[j].code[q].o = "DATA"
             \* every instruction becomes exactly one instruction
             exact == Direct(r) \/ (r.header.v.version = 80 /\ \A j \in each : IsSimple(fs[j]))
         IN  IF ~wordwide THEN IF case.tag = "err" /\ case.err \in ConversionErrors THEN "" ELSE "layout-wider-than-instruction"
             ELSE IF raw /\ ~Direct(r) THEN ""
             ELSE IF exact
             THEN IF case.tag = "ok"
                  THEN IF "no" \in all THEN "operand-does-not-fit"
                       ELSE IF ~numbers THEN "number-does-not-fit"
                       ELSE IF tall # {} THEN "stack-does-not-fit" ELSE ""
                  ELSE IF case.tag # "err" THEN ""
                  ELSE CASE case.err = "ValueTooBigForOperand" -> IF all = {"yes"} THEN "refused-operand" ELSE ""
                         [] case.err \in {"FloatPrecisionLoss", "IntegerOverflow"} -> IF numbers THEN "refused-number" ELSE ""
                         [] case.err = "StackTooLarge" ->
                              \* translated code may name registers beyond the declared stack, if it was never loadable
                              IF tall = {} /\ (Direct(r) \/ \A j \in each : Complaint(fs[j], r.chunk.v.version, dialect) = "")
                              THEN "refused-stack" ELSE ""
                         [] OTHER -> "refused:" \o case.err
             ELSE IF \E j \in each : Complaint(fs[j], r.chunk.v.version, dialect) # "" THEN ""
             ELSE IF ~numbers /\ case.tag = "ok" THEN "number-does-not-fit"
             ELSE IF case.tag = "err" /\ numbers /\ case.err \in {"FloatPrecisionLoss", "IntegerOverflow"} THEN "refused-number"
             ELSE IF case.tag = "err" /\ case.err = "StackTooLarge" /\ \A j \in each : StackNeed(fs[j], r) <= out.limit /\ StackNeed(fs[j], r) <= 255
                  THEN "refused-stack"
             ELSE IF case.tag = "err" /\ numbers /\ \A j \in each : Comfortable(fs[j], r) THEN "refused:" \o case.err
             ELSE ""

NumberFitVerdict(case, r) ==
    IF r.chunk.e # "" \/ r.chunk.v.spare > 0 \/ PassThrough(r, case.in) THEN ""
    ELSE LET fs == Functions(r.chunk.v.main)
             numbers == \A j \in 1..Len(fs) : NumbersFit(fs[j], r.chunk.v.format, r.format)
         IN  IF case.tag = "ok" /\ ~numbers THEN "number-does-not-fit"
             ELSE IF case.tag = "err" /\ case.err \in {"FloatPrecisionLoss", "IntegerOverflow"} /\ numbers THEN "refused-number"
             ELSE ""

(***************************************************************************)
(* Preservation, function by function.                                     *)
(***************************************************************************)
Stage(case, r) ==
    \* The two chunks of an accepted, converted input; "" when there is nothing to compare.
    LET o == ReadOutput(case, r)
    IN  IF case.tag # "ok" \/ r.chunk.e # "" \/ r.chunk.v.spare > 0 \/ PassThrough(r, case.in) THEN [ e |-> "skip" ]
        ELSE IF \E j \in 1..Len(Functions(r.chunk.v.main)) : ~IntegersFit(Functions(r.chunk.v.main)[j], r.format) THEN [ e |-> "skip" ]
        ELSE LET bad == OutputReads(case, r)
             IN  IF bad # "" THEN [ e |-> bad ] ELSE [ e |-> "", s |-> r.chunk.v.main, d |-> o.v.main ]

Compare(stage, Rule(_, _)) ==
    IF stage.e = "skip" THEN "" ELSE IF stage.e # "" THEN stage.e ELSE OverPairs(stage.s, stage.d, Rule)

\* Text is kept byte for byte.
TextRule(r, s, d) ==
    LET strings(fn) == SelectSeq(fn.consts, LAMBDA c : c[1] = "str")
        ss == strings(s)
        ds == strings(d)
    IN  IF s.source # d.source THEN "source-name"
        ELSE IF Len(ss) > Len(ds) \/ \E j \in 1..Len(ss) : ss[j] # ds[j] THEN "string-constant"
        ELSE IF [j \in 1..Len(s.locals) |-> s.locals[j][1]] # [j \in 1..Len(d.locals) |-> d.locals[j][1]] THEN "local-name"
        ELSE IF s.upnames # d.upnames THEN "upvalue-name"
        ELSE ""

\* Numbers keep their values.
NumberRule(r, s, d) ==
    IF Len(d.consts) < Len(s.consts) THEN "constants-lost"
    ELSE IF \E j \in 1..Len(s.consts) :
               /\ s.consts[j][1] = "num"
               /\ ~ /\ d.consts[j][1] = "num"
                    /\ d.consts[j][2] = WrittenNumber(s.consts[j][2], r.format)
         THEN "number-value" ELSE ""

SameConstant(r, a, b) ==
    /\ a[1] = b[1]
    /\ CASE a[1] = "nil" -> TRUE
         [] a[1] = "num" -> b[2] = WrittenNumber(a[2], r.format)
         [] OTHER -> a[2] = b[2]

\* Constants keep their places; what is added is new to the function or is one of the fixed names of the base library.
LibraryNames == { <<NameType \o <<0>>>>, <<NameNext \o <<0>>>>, <<<<116, 97, 98, 108, 101, 0>>>> }
AccessesGlobal(i) == i.o \in {"GETGLOBAL", "SETGLOBAL"}
NamesGlobal(fn, i) == i.x < Len(fn.consts) /\ fn.consts[i.x + 1][1] = "str"
GlobalNames(fn) == { fn.consts[fn.code[j].x + 1][2] : j \in { j \in 1..Len(fn.code) : AccessesGlobal(fn.code[j]) /\ NamesGlobal(fn, fn.code[j]) } }
NamelessGlobal(fn) == \E j \in 1..Len(fn.code) : AccessesGlobal(fn.code[j]) /\ ~NamesGlobal(fn, fn.code[j])
PoolRule(r, s, d) ==
    LET n == Len(s.consts)
        names == { s.consts[j][2] : j \in { j \in 1..n : s.consts[j][1] = "str" } }
        added == { j \in n + 1..Len(d.consts) : TRUE }
        temporary == { j \in added : d.consts[j][1] = "str" /\ d.consts[j][2] \notin LibraryNames }
    IN  IF Len(d.consts) < n THEN "constants-lost"
        ELSE IF \E j \in 1..n : ~SameConstant(r, s.consts[j], d.consts[j]) THEN "constant-changed"
        ELSE IF r.header.v.version = 81 /\ Len(d.consts) # n THEN "constants-added"
        ELSE IF \E j \in added : d.consts[j][1] \notin {"nil", "str"} THEN "constant-kind"
        ELSE IF \E j \in temporary : d.consts[j][2] \in names THEN "temporary-not-fresh"
        ELSE IF Cardinality({ d.consts[j][2] : j \in temporary }) # Cardinality(temporary) THEN "temporary-shared"
        ELSE IF \E j \in temporary : d.consts[j][2] = <<>> \/ d.consts[j][2][1][Len(d.consts[j][2][1])] # 0 THEN "temporary-unterminated"
        ELSE IF NamelessGlobal(d) /\ ~NamelessGlobal(s) THEN "global-without-name"
        ELSE IF ~(GlobalNames(d) \subseteq (GlobalNames(s) \union LibraryNames \union { d.consts[j][2] : j \in temporary })) THEN "global-of-other-name"
        ELSE ""

ShapeRule(r, s, d) ==
    IF s.line # d.line THEN "line-defined"
    ELSE IF d.last # (IF r.header.v.version = 81 THEN s.last ELSE s.line) THEN "last-line-defined"
    ELSE IF s.params # d.params THEN "parameters"
    ELSE ""

VarargRule(r, s, d) ==
    IF r.header.v.version = 81 THEN IF s.vararg = d.vararg THEN "" ELSE "vararg"
    ELSE IF s.vararg = 0 THEN IF d.vararg = 0 THEN "" ELSE "vararg"
    ELSE IF (d.vararg \div 2) % 2 = 1 THEN "" ELSE "vararg"

ClosureRule(r, s, d) ==
    LET Captures(fn) ==
            \* what every closure instruction captures, in order of appearance
            LET at == SelectSeq([j \in 1..Len(fn.code) |-> j], LAMBDA j : fn.code[j].o = "CLOSURE" /\ fn.code[j].x < Len(fn.subs))
            IN  [q \in 1..Len(at) |->
                   LET nup == fn.subs[fn.code[at[q]].x + 1].nups
                   IN  << fn.code[at[q]].x,
                          [w \in 1..nup |-> IF at[q] + w <= Len(fn.code)
                                            THEN << fn.code[at[q] + w].o, fn.code[at[q] + w].b >> ELSE <<"end", 0>>] >>]
        cs == Captures(s)
        cd == Captures(d)
    IN  IF s.nups # d.nups THEN "upvalue-count"
        ELSE IF Len(s.subs) # Len(d.subs) THEN "nested-functions"
        ELSE IF Len(cs) # Len(cd) THEN "closures"
        ELSE IF \E q \in 1..Len(cs) : cs[q] # cd[q] THEN "captured-variables"
        ELSE ""

\* The same for code that no compiler wrote: there a closure may capture an element of a table constructor, which has its place
\* in the batch of the elements and moves with it.
LooseClosureRule(r, s, d) ==
    LET complaint == ClosureRule(r, s, d)
        shifted == ~Direct(r) /\ \E j \in 1..Len(s.code) : s.code[j].o \in {"SETLIST", "SETLISTO"}
    IN  IF complaint = "captured-variables" /\ shifted THEN "" ELSE complaint

\* Re-encoding only: every instruction keeps its operation and operands.
ReencodeRule(r, s, d) ==
    IF ~Direct(r) THEN ""
    ELSE IF Len(s.code) # Len(d.code) THEN "instruction-count"
    ELSE IF s.code # d.code
    THEN IF \E j \in 1..Len(s.code) : s.code[j].o # d.code[j].o THEN "opcode"
         ELSE IF \E j \in 1..Len(s.code) : [s.code[j] EXCEPT !.u = TRUE] # [d.code[j] EXCEPT !.u = TRUE] THEN "operand"
         ELSE IF \E j \in 1..Len(s.code) : s.code[j].u /\ ~d.code[j].u THEN "unused-operand" ELSE ""
    ELSE ""

Translated(i, j) ==
    IF i.o = "TEST"
    THEN \/ j = [i EXCEPT !.o = "TESTSET"]
         \/ i.a = i.b /\ j.o = "TEST" /\ j.a = i.a /\ j.c = i.c
    ELSE i = j
SimpleRule(r, s, d) ==
    IF r.header.v.version # 80 \/ ~IsSimple(s) THEN ""
    ELSE IF Len(s.code) # Len(d.code) THEN "instruction-count"
    ELSE IF \E j \in 1..Len(s.code) : ~Translated([s.code[j] EXCEPT !.u = TRUE], [d.code[j] EXCEPT !.u = TRUE]) THEN "instruction"
    ELSE ""

StackRule(r, s, d) ==
    IF Direct(r) THEN IF s.stack = d.stack THEN "" ELSE "stack-size"
    ELSE IF d.stack < s.stack THEN "stack-size" ELSE ""

StackLimitRule(r, s, d) == IF d.stack > r.settings.output.limit THEN "stack-limit" ELSE ""

LineRule(r, s, d) ==
    IF Direct(r) THEN IF s.lines = d.lines THEN "" ELSE "lines"
    ELSE IF s.lines = <<>> THEN IF d.lines = <<>> THEN "" ELSE "lines-invented"
    ELSE IF Len(s.lines) # Len(s.code) THEN ""
    ELSE IF Len(d.lines) # Len(d.code) THEN "line-count"
    ELSE IF { d.lines[j] : j \in 1..Len(d.lines) } \subseteq { s.lines[j] : j \in 1..Len(s.lines) } THEN "" ELSE "line-invented"

\* Ranges of local variables, where the conversion leaves the instructions in place.
LocalRule(r, s, d) ==
    IF Len(s.locals) # Len(d.locals) THEN "locals"
    ELSE IF [j \in 1..Len(s.locals) |-> s.locals[j][1]] # [j \in 1..Len(d.locals) |-> d.locals[j][1]] THEN "local-name"
    ELSE IF Direct(r) \/ (Len(s.code) = Len(d.code) /\ \A j \in 1..Len(s.code) : s.code[j].o \notin {"SETLIST", "SETLISTO"})
    THEN IF s.locals = d.locals THEN "" ELSE "local-range"
    ELSE ""

\* The loader of Lua 5.1 accepts what came out, if the loader of its own version accepted what went in.
LoaderVerdict(case, r, stage) ==
        IF stage.e = "skip" THEN ""
        ELSE IF stage.e # "" THEN stage.e
        ELSE IF ~Acceptable(stage.s, r.header.v.version, SourceDialect(r)) THEN ""
        ELSE LET complaint == ComplaintDeep(stage.d, 81, r.settings.output)
             IN  IF complaint = "" THEN "" ELSE "loader:" \o complaint

\* A refusal for lack of stack names a size that is in fact too large.
StackErrorVerdict(case, r) ==
    IF case.tag = "err" /\ case.err = "StackTooLarge"
    THEN IF Len(case.arg) = 1 /\ (case.arg[1] > r.settings.output.limit \/ case.arg[1] > 255) THEN "" ELSE "stack-error-payload"
    ELSE ""

(***************************************************************************)
(* Relations between several calls.                                        *)
(***************************************************************************)
\* Does the format in between keep every number of the chunk?
LosslessIn(fn, from, format) ==
    /\ IntegersFit(fn, format)
    /\ \A j \in 1..Len(fn.consts) :
          fn.consts[j][1] = "num" =>
             /\ NumberFits(fn.consts[j][2], format) /\ IntegerFits(fn.consts[j][2], from, format)
             /\ WrittenNumber(fn.consts[j][2], format) = fn.consts[j][2]

\* case.out is what one call made of case.in, case.mid what a call to the format in between made of it,
\* case.out2 what a call made of case.mid, case.out3 what a call made of case.out.
StepsVerdict(case, r) ==
    IF r.chunk.e # "" \/ r.chunk.v.spare > 0 \/ case.midtag # "ok" THEN ""
    ELSE LET fs == Functions(r.chunk.v.main)
             lossless == \A j \in 1..Len(fs) : LosslessIn(fs[j], r.chunk.v.format, FormatOf(case.midfmt))
         IN  IF lossless /\ case.tag2 # case.tag THEN "steps-differ-in-outcome"
             ELSE IF lossless /\ case.out2 # case.out THEN "steps-differ-in-bytes"
             ELSE IF case.tag = "ok" /\ (case.tag3 # "ok" \/ case.out3 # case.out) THEN "not-idempotent"
             ELSE ""

\* All observations of one stimulus, in any order of calls and from several threads, are the same.
HistoryVerdict(case) ==
    IF \A j \in 2..Len(case.obs) : case.obs[j] = case.obs[1]
    THEN (IF case.obs[1].tag \in {"ok", "err"} THEN "" ELSE case.obs[1].tag) ELSE "depends-on-history"

\* The same functions, however they are encoded, lead to the same result.
\* case.ins are the inputs with the settings to read them by, case.obs what came of them.
SameMeaning(case) ==
    LET main(j) == LET settings == SettingsOf(case.ins[j][2])
                       chunk == ReadChunk(case.ins[j][1], settings)
                       fs == Functions(chunk.v.main)
                   IN  IF chunk.e # "" THEN <<chunk.e, j, <<>> >>
                       \* a Lua whose operands could not name its registers
                       ELSE IF chunk.v.version = 81 /\ \E k \in 1..Len(fs) : fs[k].stack > Power(settings.lua51.lay.bs - 1) THEN <<"odd", j, <<>> >>
                       ELSE <<"", chunk.v.spare, chunk.v.main>>
        one == main(1)
    IN  \A j \in 2..Len(case.ins) : main(j) = one
EncodingsVerdict(case) ==
    IF \E j \in 1..Len(case.obs) : case.obs[j].tag \notin {"ok", "err"} THEN "panic"
    ELSE IF SameMeaning(case) /\ \E j \in 2..Len(case.obs) : case.obs[j] # case.obs[1] THEN "depends-on-encoding"
    ELSE ""

\* What a call leaves to the crate is as unmodified Lua has it: case.left lists <<0, position in the format>> and <<dialect, field>>.
Left(case) ==
    \A j \in 1..Len(case.left) :
        LET x == case.left[j]
        IN  IF x[1] = 0 THEN case.fmt[x[2]] = StandardFormat[x[2]] ELSE case.set[x[1]][x[2]] = StandardSettings[x[1]][x[2]]

(***************************************************************************)
(* Memory.  case.size and case.result are the numbers of bytes that went   *)
(* in and came out (0 for an error), case.peak is what the call had        *)
(* allocated at most.  One instruction of Lua 5.0 can become some five     *)
(* hundred (a generic loop with that many variables, a SETLIST written one *)
(* element at a time), so that a byte may well become a thousand.  The     *)
(* bounds are four times as much; what matters is that they depend on what *)
(* the input holds and not on what it claims to hold.                      *)
(***************************************************************************)
Base == 65536
Within(amount, factor, size) == amount <= Base \/ (amount - Base) \div factor <= size
MemoryVerdict(case) ==
    IF case.tag = "ok" /\ ~Within(case.result, 4096, case.size) THEN "result-out-of-proportion"
    ELSE IF case.tag = "ok" /\ ~Within(case.peak, 256, case.size + case.result) THEN "memory-out-of-proportion"
    ELSE IF case.tag = "err" /\ ~Within(case.peak, 8192, case.size) THEN "memory-for-nothing"
    ELSE ""

LayoutVerdict(case) ==
    LET valid == ValidLayout(case.spec)
    IN  IF case.tag \notin {"ok", "err"} THEN case.tag
        ELSE IF valid /\ case.tag = "err" THEN "valid-layout-refused"
        ELSE IF ~valid /\ case.tag = "ok" THEN "invalid-layout-accepted"
        ELSE IF ~valid /\ case.err # "InvalidInstructionLayout" THEN "layout-error:" \o case.err
        ELSE ""

(***************************************************************************)
(* The verdict of one check on one case.                                   *)
(***************************************************************************)
ConversionVerdict(case) ==
    LET r == Reading(case)
        stage == Stage(case, r)
        With(Rule(_, _, _)) == Compare(stage, LAMBDA s, d : Rule(r, s, d))
        Content == First(<< With(ShapeRule), With(VarargRule), With(LooseClosureRule), With(PoolRule), With(ReencodeRule), With(SimpleRule),
                            With(StackRule), With(LineRule), With(LocalRule), With(TextRule), With(NumberRule) >>)
    IN  CASE case.rule = "C02" -> First(<< OutputHeaderVerdict(case, r), Content >>)
          [] case.rule = "C03" -> First(<< PassVerdict(case, r), OutputHeaderVerdict(case, r), FitVerdict(case, r), Content >>)
          [] case.rule = "C04" -> First(<< FitVerdict(case, r), Content, With(StackLimitRule) >>)
          [] case.rule = "C05" -> First(<< FitVerdict(case, r), Content >>)
          [] case.rule = "C06" -> First(<< FitVerdict(case, r), With(TextRule), With(PoolRule) >>)
          [] case.rule = "C07" -> First(<< NumberFitVerdict(case, r), With(NumberRule) >>)
          [] case.rule = "C08" -> First(<< FitVerdict(case, r), With(ReencodeRule), With(SimpleRule) >>)
          [] case.rule = "C09" -> First(<< HeaderVerdict(case, r), IF r.header.e # "" THEN "" ELSE LenientBodyVerdict(case, r) >>)
          [] case.rule = "C10" -> First(<< HeaderVerdict(case, r), BodyVerdict(case, r) >>)
          [] case.rule = "C16" -> First(<< FitVerdict(case, r), With(ClosureRule), With(ShapeRule), With(VarargRule) >>)
          [] case.rule = "C17" -> First(<< FitVerdict(case, r), StackErrorVerdict(case, r), With(StackRule), With(StackLimitRule),
                                           LoaderVerdict(case, r, stage) >>)
          [] case.rule = "C18" -> First(<< FitVerdict(case, r), With(LineRule), With(LocalRule), With(TextRule), With(ShapeRule) >>)
          [] case.rule = "C28" -> First(<< FitVerdict(case, r), With(LocalRule), With(ShapeRule) >>)
          [] case.rule = "C19" -> LoaderVerdict(case, r, stage)
          [] case.rule = "C20" -> First(<< FitVerdict(case, r), With(ReencodeRule), With(SimpleRule) >>)
          [] case.rule = "C21" -> First(<< StepsVerdict(case, r), FitVerdict(case, r) >>)
          [] case.rule = "C22" -> First(<< FitVerdict(case, r), With(PoolRule) >>)
          [] case.rule = "C24" -> First(<< HeaderVerdict(case, r), PassVerdict(case, r), LenientBodyVerdict(case, r), OutputHeaderVerdict(case, r),
                                           FitVerdict(case, r), StackErrorVerdict(case, r), Content, With(StackLimitRule) >>)
          [] case.rule = "ALL" -> First(<< HeaderVerdict(case, r), PassVerdict(case, r), LenientBodyVerdict(case, r),
                                           OutputHeaderVerdict(case, r), FitVerdict(case, r), StackErrorVerdict(case, r), Content,
                                           With(StackLimitRule), LoaderVerdict(case, r, stage) >>)

\* Kinds of recordings: one call; a layout given to the constructor; the same call in many contexts; a call and those built on it.
Verdict(case) ==
    CASE case.rule = "LAYOUT" -> LayoutVerdict(case)
      [] case.rule = "HISTORY" -> HistoryVerdict(case)
      [] case.rule = "ENCODINGS" -> EncodingsVerdict(case)
      [] case.rule = "C01" -> Total(case)
      [] case.rule = "C24" /\ ~Left(case) -> "the stimulus is not what is standard"
      [] Total(case) # "" -> Total(case)
      [] case.rule = "C29" -> MemoryVerdict(case)
      [] OTHER -> ConversionVerdict(case)

\* Did the case exercise its rule (rather than being skipped)?
ConversionSubstance(case) ==
    LET r == Reading(case)
    IN  IF r.header.e # "" THEN "rejected:" \o r.header.e
        ELSE IF PassThrough(r, case.in) THEN "passed"
        ELSE IF r.chunk.e # "" THEN "rejected:" \o r.chunk.e
        ELSE IF r.chunk.v.spare > 0 THEN "rejected:InputTooLong"
        ELSE IF case.tag = "ok" THEN (IF r.header.v.version = 80 THEN "upcast" ELSE IF Direct(r) THEN "reencoded" ELSE "repaged")
        ELSE "refused:" \o case.err

Substance(case) ==
    CASE case.rule = "LAYOUT" -> IF ValidLayout(case.spec) THEN "valid" ELSE "invalid"
      [] case.rule = "HISTORY" -> case.obs[1].tag
      [] case.rule = "ENCODINGS" -> IF SameMeaning(case) THEN case.obs[1].tag ELSE "different"
      [] case.rule = "C01" -> IF case.tag = "err" THEN "refused:" \o case.err ELSE case.tag
      [] case.rule = "C29" -> IF case.tag = "ok" THEN "converted" ELSE IF case.peak > Base THEN "large" ELSE "small"
      [] OTHER -> ConversionSubstance(case)
=============================================================================
