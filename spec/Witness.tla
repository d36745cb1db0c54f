------------------------------- MODULE Witness -----------------------------
(***************************************************************************)
(* A real Lua 5.1 as a witness.                                            *)
(*                                                                         *)
(* Each behaviour takes one recorded conversion together with the trace    *)
(* of the converted chunk in the real interpreter: the events that it      *)
(* caused, and the answers that it was given.  The original program is run *)
(* on the virtual machine of its version and given the same answers.  It   *)
(* must go through the same events.                                        *)
(*                                                                         *)
(* The interpreter names tables and closures by labels of its own, which   *)
(* are matched to those of the specification when they first appear.       *)
(*                                                                         *)
(* A recording has, besides the fields of a run (see Product):             *)
(*   real    what kept the interpreter from running the chunk, or ""       *)
(*   trace   the events: kind k, line (-2: unknown), values v, answers a,  *)
(*           the contents t of the tables in sight, and the names n of the *)
(*           local variables in scope in each running function             *)
(***************************************************************************)
EXTENDS Contract, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

Fuel == 3000           \* instructions of the original between two events

VARIABLES
    case,      \* the recording
    phase,     \* "new", "run", "end"
    at,        \* events of the trace that were matched
    names,     \* labels of the interpreter: functions to heap and clos
    s, ps      \* the machine, and its program

vars == <<case, phase, at, names, s, ps>>
View == <<case, phase, at, names, s>>

Say(i, verdict, substance) == PrintT("JUDGED|" \o ToString(i) \o "|" \o verdict \o "|" \o substance)

NoNames == [ ok |-> TRUE, tables |-> [ l \in {} |-> 0 ], closures |-> [ l \in {} |-> 0 ] ]

Init ==
    /\ case \in 1..Len(Cases)
    /\ phase = "new" /\ at = 0 /\ names = NoNames
    /\ s = <<>> /\ ps = <<>>

(***************************************************************************)
(* Values of the interpreter, and those of the specification.              *)
(***************************************************************************)
Images(f) == { f[l] : l \in DOMAIN f }

\* n, after the interpreter's value v was found where the specification has w
Match(n, v, w) ==
    LET bad == [n EXCEPT !.ok = FALSE]
        Bind(known) == IF v[2] \in DOMAIN known THEN known[v[2]] = w[2] ELSE w[2] \notin Images(known)
    IN  IF w = Loose THEN n
        ELSE IF v[1] = 97 THEN IF w[1] = 3 THEN n ELSE bad
        ELSE IF v[1] # w[1] THEN bad
        ELSE IF v[1] = 3 THEN IF Len(w) # 2 \/ v = w THEN n ELSE bad
        ELSE IF v[1] = 5 THEN IF Bind(n.tables) THEN [n EXCEPT !.tables = (v[2] :> w[2]) @@ @] ELSE bad
        ELSE IF v[1] = 6 THEN IF Bind(n.closures) THEN [n EXCEPT !.closures = (v[2] :> w[2]) @@ @] ELSE bad
        ELSE IF v = w THEN n ELSE bad

MatchAll(n, vs, ws) ==
    IF Len(vs) # Len(ws) THEN [n EXCEPT !.ok = FALSE]
    ELSE FoldLeft(LAMBDA acc, j : IF acc.ok THEN Match(acc, vs[j], ws[j]) ELSE acc, n, [j \in 1..Len(vs) |-> j])

\* the specification's value for one of the interpreter, whose label is known
Known(n, v) == IF v[1] = 5 THEN v[2] \in DOMAIN n.tables ELSE IF v[1] = 6 THEN v[2] \in DOMAIN n.closures ELSE v[1] # 97
Value(n, v) == IF v[1] = 5 THEN <<5, n.tables[v[2]]>> ELSE IF v[1] = 6 THEN <<6, n.closures[v[2]]>> ELSE v

FilledKeys(table) == { k \in DOMAIN table : table[k] # Nil }

\* One table of the snapshot.  Tables come before what is only found in them.
MatchTable(n, heap, entry) ==
    LET table == heap[n.tables[entry[1]]]
        rows == entry[2]
        Row(acc, j) ==
            LET key == rows[j][1]
            IN  IF ~acc.ok \/ ~Known(acc, key) THEN acc
                ELSE IF Value(acc, key) \notin FilledKeys(table) THEN [acc EXCEPT !.ok = FALSE]
                ELSE Match(acc, rows[j][2], table[Value(acc, key)])
    IN  IF Cardinality(FilledKeys(table)) # Len(rows) THEN [n EXCEPT !.ok = FALSE]
        ELSE FoldLeft(Row, n, [j \in 1..Len(rows) |-> j])

MatchTables(n, heap, snapshot) ==
    FoldLeft(LAMBDA acc, j : IF acc.ok /\ snapshot[j][1] \in DOMAIN acc.tables THEN MatchTable(acc, heap, snapshot[j]) ELSE acc,
             n, [j \in 1..Len(snapshot) |-> j])

(***************************************************************************)
(* One event of the specification may be several of the interpreter, or    *)
(* none: strings are joined two at a time, and nothing of it shows unless  *)
(* an opaque value takes part.                                             *)
(***************************************************************************)
RECURSIVE Joining(_, _, _, _, _)
\* <<names, events used, the value>>; value <<>>: cannot tell
Joining(n, trace, operands, acc, used) ==
    IF operands = <<>> THEN <<n, used, acc>>
    ELSE LET x == operands[Len(operands)]
             rest == SubSeq(operands, 1, Len(operands) - 1)
         IN  IF x[1] = 4 /\ acc[1] = 4 THEN Joining(n, trace, rest, x \o Tail(acc), used)
             ELSE IF x[1] \in {3, 4} /\ acc[1] \in {3, 4} THEN <<n, used, <<>>>>
             ELSE IF used < Len(trace) /\ trace[used + 1].k = "cut" THEN <<n, used, <<>>>>
             ELSE IF used + 1 > Len(trace) \/ trace[used + 1].k # "CONCAT" THEN <<[n EXCEPT !.ok = FALSE], used, <<0>>>>
             ELSE Joining(MatchAll(n, trace[used + 1].v, <<x, acc>>), trace, rest, trace[used + 1].a[1], used + 1)

(***************************************************************************)
(* What comes next: the machine m has stopped, and events up to `done` of  *)
(* the trace have been matched.                                            *)
(***************************************************************************)
Over(verdict, substance) == [ go |-> FALSE, verdict |-> verdict, substance |-> substance ]
Unchecked == { "for-initial", "for-limit", "for-step", "for-variable", "for-fault", "stack-overflow", "argument" }

RECURSIVE Skipping(_, _, _)
\* assignments to the globals that the translation added do not count
Skipping(trace, temps, j) ==
    IF j < Len(trace) /\ trace[j + 1].k = "setglobal" /\ Tail(trace[j + 1].v[1]) \in temps THEN Skipping(trace, temps, j + 1) ELSE j

Temporaries(fn, other) ==
    LET strings(f) == { StringBytes(f.consts[j][2]) : j \in { j \in 1..Len(f.consts) : f.consts[j][1] = "str" } }
        all(f) == UNION { strings(g) : g \in { Functions(f)[j] : j \in 1..Len(Functions(f)) } }
    IN  all(other) \ (all(fn) \cup { NameType, NameNext })

SameLine(a, r) == r.line = -2 \/ a.ev.line <= 0 \/ r.line = a.ev.line

\* A tail call ends the function that makes it.
SameLocals(program, a, r) ==
    LET all == LocalNames(program, a)
        last == program[a.cur.f].code[a.cur.pc - 1].o
        running == IF last = "TAILCALL" THEN SubSeq(all, 1, Len(all) - 1) ELSE all
    IN  r.n = [ j \in 1..Len(running) |-> [ q \in 1..Len(running[j]) |-> Text(StringBytes(running[j][q])) ] ]

Meeting(i, program, temps, a0, n, j0) ==
    LET c == Cases[i]
        a == TLCEval(Run(program, c.version, c.sfpf, a0, Fuel))
        j == Skipping(c.trace, temps, j0)
        r == c.trace[j + 1]
        v == a.ev.v
        foreign == \E k \in 1..Len(v) : IsOpaque(v[k])
        shown == MatchTables(MatchAll(n, r.v, v), a.heap, r.t)
        Go(m, used, value) == [ go |-> TRUE, m |-> m, at |-> used, names |-> value ]
    IN  IF j >= Len(c.trace) \/ r.k = "cut" \/ a.st = "spent" \/ (a.st = "error" /\ a.ev.k \in Unchecked) THEN Over("ok", "cut")
        ELSE IF a.st = "error"
        THEN IF r.k # "error:" \o a.ev.k THEN Over("real-lua:" \o r.k \o "-instead-of-error:" \o a.ev.k, "differ")
             ELSE IF ~SameLine(a, r) THEN Over("real-lua:line-of-error:" \o a.ev.k, "differ")
             ELSE Over("ok", r.k)
        ELSE IF a.st = "done"
        THEN IF r.k # "return" THEN Over("real-lua:" \o r.k \o "-instead-of-return", "differ")
             ELSE IF ~shown.ok THEN Over("real-lua:values-of:return", "differ")
             ELSE Over("ok", "done")
        ELSE IF a.ev.k = "CONCAT"
        THEN LET joined == TLCEval(Joining(n, c.trace, SubSeq(v, 1, Len(v) - 1), v[Len(v)], j))
             IN  IF joined[3] = <<>> THEN Over("ok", "cut")
                 ELSE IF ~joined[1].ok THEN Over("real-lua:" \o r.k \o "-instead-of-CONCAT", "differ")
                 ELSE Go(Resume(program, c.version, a, <<Value(joined[1], joined[3])>>), joined[2], joined[1])
        ELSE IF a.ev.k = "LEN" /\ v[1][1] = 4 THEN Go(Resume(program, c.version, a, << Small(16 * (Len(v[1]) - 1)) >>), j, n)
        ELSE IF ~foreign /\ a.ev.k \notin {"setglobal"} THEN Over("ok", "cut")    \* numbers that the specification does not compute with
        ELSE IF r.k # a.ev.k THEN Over("real-lua:" \o r.k \o "-instead-of-" \o a.ev.k, "differ")
        ELSE IF ~shown.ok THEN Over("real-lua:values-of:" \o a.ev.k, "differ")
        ELSE IF ~SameLine(a, r) THEN Over("real-lua:line-of:" \o a.ev.k, "differ")
        ELSE IF ~SameLocals(program, a, r) THEN Over("real-lua:locals-at:" \o a.ev.k, "differ")
        ELSE Go(Resume(program, c.version, a, [k \in 1..Len(r.a) |-> r.a[k]]), j + 1, shown)

Continue(program, meeting) ==
    IF meeting.go
    THEN phase' = "run" /\ at' = meeting.at /\ names' = meeting.names /\ s' = meeting.m /\ ps' = program
    ELSE /\ Say(case, meeting.verdict, meeting.substance)
         /\ phase' = "end" /\ at' = 0 /\ names' = NoNames /\ s' = <<>> /\ ps' = <<>>

Boot(program, version, args) ==
    LET blank == Start(program)
        ups == [j \in 1..program[1].nups |-> j]
        base == [blank EXCEPT !.clos = << <<1, ups>> >>, !.cells = [j \in 1..program[1].nups |-> <<1, Nil>>]]
    IN  Enter(program, version, base, 1, args, <<"done">>)

Loading(c) ==
    LET r == Reading(c)
        stage == Stage(c, r)
        refused == FitVerdict(c, r)
        \* what is passed through is a chunk of Lua 5.1 all the same
        original == IF stage.e = "skip" THEN r.chunk.v.main ELSE stage.s
    IN  IF Total(c) # "" THEN Over(Total(c), "fatal")
        ELSE IF r.chunk.e # "" \/ r.chunk.v.spare > 0 THEN Over("ok", "rejected")
        ELSE IF c.tag = "err" THEN Over(IF refused = "" THEN "ok" ELSE refused, "refused:" \o c.err)
        ELSE IF stage.e \notin {"", "skip"} THEN Over(stage.e, "unreadable")
        ELSE IF stage.e = "skip" /\ ~PassThrough(r, c.in) THEN Over("ok", "passed")
        ELSE IF ~Acceptable(original, r.header.v.version, SourceDialect(r)) THEN Over("ok", "unloadable")
        ELSE IF c.real # "" THEN Over("real-lua:" \o c.real, "differ")
        ELSE [ go |-> TRUE, s |-> original, d |-> IF stage.e = "skip" THEN original ELSE stage.d ]

Load ==
    /\ phase = "new"
    /\ LET c == Cases[case]
           loading == TLCEval(Loading(c))
           p == TLCEval(Program(loading.s))
           args == [j \in 1..c.args |-> <<9, 1000 + j>>]
       IN  IF loading.go
           THEN LET first == Meeting(case, p, Temporaries(loading.s, loading.d), Boot(p, c.version, args), NoNames, 0)
                IN  Continue([ code |-> p, temps |-> Temporaries(loading.s, loading.d) ], first)
           ELSE Continue(<<>>, loading)
    /\ UNCHANGED case

Follow ==
    /\ phase = "run"
    /\ Continue(ps, Meeting(case, ps.code, ps.temps, s, names, at))
    /\ UNCHANGED case

Next == Load \/ Follow

Spec == Init /\ [][Next]_vars
=============================================================================
