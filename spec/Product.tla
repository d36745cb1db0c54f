------------------------------- MODULE Product -----------------------------
(***************************************************************************)
(* The converted program simulates the original one.                       *)
(*                                                                         *)
(* Each behaviour takes one recorded conversion, reads both chunks, and    *)
(* runs the original on the virtual machine of its version and the         *)
(* conversion on the virtual machine of Lua 5.1, side by side, from one    *)
(* event that the outside can observe to the next.  The environment        *)
(* answers both with the same values, which it chooses freely as long as   *)
(* its budget lasts.  The two machines must agree on every event: what     *)
(* happens, with which values, what the tables in sight contain, which     *)
(* line it is attributed to, and which local variables are in scope.       *)
(*                                                                         *)
(* A recording has, besides the fields of a call (see Contract):           *)
(*   args    how many arguments the main function is called with           *)
(*   strict  also demand what the conversion is known not to do            *)
(***************************************************************************)
EXTENDS Contract, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

Number(name, default) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE default

Budget == Number("BUDGET", 3)          \* free choices on a path
Horizon == Number("HORIZON", 24)       \* events on a path
Fuel == Number("FUEL", 1500)           \* instructions of the original between two events
Stretch == 12                          \* how much longer the converted code may take

VARIABLES
    case,      \* the recording
    phase,     \* "new", "meet" (both machines wait at the same event), "end"
    left,      \* free choices that remain
    count,     \* events so far
    seen,      \* tables the environment has a reference to
    s, d,      \* the machines
    ps, pd     \* the programs

vars == <<case, phase, left, count, seen, s, d, ps, pd>>
View == <<case, phase, left, count, seen, s, d>>

Say(i, verdict, substance) == PrintT("JUDGED|" \o ToString(i) \o "|" \o verdict \o "|" \o substance)

Init ==
    /\ case \in 1..Len(Cases)
    /\ phase = "new" /\ left = Budget /\ count = 0 /\ seen = {}
    /\ s = <<>> /\ d = <<>> /\ ps = <<>> /\ pd = <<>>

(***************************************************************************)
(* What the two machines must agree on.                                    *)
(***************************************************************************)
TablesIn(values) == { values[j][2] : j \in { j \in 1..Len(values) : values[j][1] = 5 } }

RECURSIVE Reach(_, _)
Reach(heap, tables) ==
    LET inside(i) == { x[2] : x \in { y \in DOMAIN heap[i] \cup { heap[i][k] : k \in DOMAIN heap[i] } : y[1] = 5 } }
        more == tables \cup UNION { inside(i) : i \in tables }
    IN  IF more = tables THEN tables ELSE Reach(heap, more)

Filled(table) == { k \in DOMAIN table : table[k] # Nil }
SameTable(a, b) == Filled(a) = Filled(b) /\ \A k \in Filled(a) : a[k] = b[k]

\* The environment keeps hold of every table it has been shown.
Shown(m, known) == Reach(m.heap, known \cup TablesIn(m.ev.v))

Disagreement(i, program, translated, a, b, known) ==
    LET lines == Cases[i].rule = "C18"
        shown == Shown(a, known)
    IN  IF b.st = "spent" THEN "runs-on-after:" \o a.ev.k
        ELSE IF b.st # a.st THEN b.st \o ":" \o b.ev.k \o "-instead-of-" \o a.st \o ":" \o a.ev.k
        ELSE IF b.ev.k # a.ev.k THEN b.ev.k \o "-instead-of-" \o a.ev.k
        ELSE IF b.ev.v # a.ev.v THEN "values-of:" \o a.ev.k
        ELSE IF \E t \in shown : t > Len(b.heap) \/ ~SameTable(a.heap[t], b.heap[t]) THEN "table-contents-at:" \o a.ev.k
        ELSE IF lines /\ a.st # "done" /\ a.ev.line # b.ev.line THEN "line-of:" \o a.ev.k
        ELSE IF Cases[i].rule = "C28" /\ a.st = "event" /\ LocalNames(program, a) # LocalNames(translated, b) THEN "locals-at:" \o a.ev.k
        ELSE ""

\* What the conversion is known not to keep.
Unchecked == { "for-initial", "for-limit", "for-step", "for-variable" }

(***************************************************************************)
(* Continue with machines that have just been set going, up to the next    *)
(* event: what there is to say, and the machines if the path goes on.      *)
(***************************************************************************)
Over(verdict, substance) == [ go |-> FALSE, verdict |-> verdict, substance |-> substance ]

Meeting(i, program, translated, a0, b0, known, n) ==
    LET c == Cases[i]
        a == TLCEval(Run(program, c.version, c.sfpf, a0, Fuel))
        b == TLCEval(Run(translated, 81, c.dfpf, b0, Fuel * Stretch))
        wrong == Disagreement(i, program, translated, a, b, known)
    IN  IF a.st = "spent" \/ n > Horizon \/ (a.st = "error" /\ a.ev.k \in Unchecked /\ ~c.strict) THEN Over("ok", "cut")
        ELSE IF wrong # "" THEN Over(wrong, "differ")
        ELSE IF a.st # "event" THEN Over("ok", IF a.st = "error" THEN "error:" \o a.ev.k ELSE a.st)
        ELSE [ go |-> TRUE, a |-> a, b |-> b, seen |-> Shown(a, known) ]

\* Sets every variable but case and left.
Continue(program, translated, n, meeting) ==
    IF meeting.go
    THEN /\ phase' = "meet" /\ count' = n /\ seen' = meeting.seen
         /\ s' = meeting.a /\ d' = meeting.b /\ ps' = program /\ pd' = translated
    ELSE /\ Say(case, meeting.verdict, meeting.substance)
         /\ phase' = "end" /\ count' = 0 /\ seen' = {}
         /\ s' = <<>> /\ d' = <<>> /\ ps' = <<>> /\ pd' = <<>>

Temporaries(fn, other) ==
    LET strings(f) == { StringBytes(f.consts[j][2]) : j \in { j \in 1..Len(f.consts) : f.consts[j][1] = "str" } }
        all(f) == UNION { strings(g) : g \in { Functions(f)[j] : j \in 1..Len(Functions(f)) } }
    IN  all(other) \ (all(fn) \cup { NameType, NameNext })

Boot(program, version, strict, args, temps) ==
    LET blank == Start(program)
        ups == [j \in 1..program[1].nups |-> j]
        base == [blank EXCEPT !.clos = << <<1, ups>> >>, !.cells = [j \in 1..program[1].nups |-> <<1, Nil>>], !.temps = temps, !.strict = strict]
    IN  Enter(program, version, base, 1, args, <<"done">>)

\* A chunk that was not converted, or whose result there is nothing to compare with, ends at once.
Loading(c) ==
    LET r == Reading(c)
        stage == Stage(c, r)
        complaint == ComplaintDeep(stage.d, 81, r.settings.output)
        refused == FitVerdict(c, r)
    IN  IF Total(c) # "" THEN Over(Total(c), "fatal")
        ELSE IF r.chunk.e # "" \/ r.chunk.v.spare > 0 THEN Over("ok", "rejected")
        ELSE IF c.tag = "err" THEN Over(IF refused = "" THEN "ok" ELSE refused, "refused:" \o c.err)
        ELSE IF stage.e = "skip" THEN Over("ok", "passed")
        ELSE IF stage.e # "" THEN Over(stage.e, "unreadable")
        ELSE IF ~Acceptable(stage.s, r.header.v.version, SourceDialect(r)) THEN Over("ok", "unloadable")
        ELSE IF complaint # "" THEN Over("unloadable:" \o complaint, "differ")
        ELSE [ go |-> TRUE, s |-> stage.s, d |-> stage.d ]

Load ==
    /\ phase = "new"
    /\ LET c == Cases[case]
           loading == TLCEval(Loading(c))
           p == TLCEval(Program(loading.s))
           q == TLCEval(Program(loading.d))
           args == [j \in 1..c.args |-> <<9, 1000 + j>>]
           temps == Temporaries(loading.s, loading.d)
       IN  IF loading.go
           THEN Continue(p, q, 0, Meeting(case, p, q, Boot(p, c.version, c.strict, args, {}),
                                          Boot(q, 81, c.strict, args, temps), {}, 0))
           ELSE Continue(<<>>, <<>>, 0, loading)
    /\ UNCHANGED <<case, left>>

(***************************************************************************)
(* The environment.                                                        *)
(***************************************************************************)
Fresh(n) == <<9, n>>

Pick(n, free, options) ==
    \* all options, or, when the budget is used up, one that depends on the time
    IF free THEN { options[j] : j \in 1..Len(options) } ELSE { options[(n % Len(options)) + 1] }

Answers(m, n, free) ==
    LET o == Fresh(8 * n)
    IN  CASE m.wait[1] = "none" -> { <<>> }
          [] m.wait[1] = "set" ->
               IF m.ev.k = "index" THEN Pick(n, free, << <<o>>, <<Nil>>, <<Small(16)>> >>)
               ELSE IF m.ev.k = "CONCAT" THEN { <<o>> } ELSE Pick(n, free, << <<o>>, <<Small(32)>> >>)
          [] m.wait[1] = "test" -> Pick(n, free, << <<Bool(FALSE)>>, <<Bool(TRUE)>> >>)
          [] m.wait[1] = "iterate" ->
               IF free THEN { <<>>, <<o, Fresh(8 * n + 1), Fresh(8 * n + 2)>>, <<Small(16 * n)>> }
               ELSE IF n % 3 = 0 THEN { <<o, Fresh(8 * n + 1)>> } ELSE { <<>> }
          [] m.wait[1] = "call" ->
               IF m.wait[3] = 0 THEN { <<>> }
               ELSE IF m.wait[3] > 0 THEN Pick(n, free, << <<o, Fresh(8 * n + 1), Fresh(8 * n + 2), Fresh(8 * n + 3)>>, <<>>, <<Small(48)>> >>)
               ELSE Pick(n, free, << <<>>, <<o>>, <<o, Fresh(8 * n + 1), Fresh(8 * n + 2)>> >>)
          [] OTHER -> { <<o>> }

Answer ==
    /\ phase = "meet"
    /\ LET options == Answers(s, count + 1, left > 0)
       IN  \E values \in options :
             /\ left' = IF Cardinality(options) > 1 THEN left - 1 ELSE left
             /\ Continue(ps, pd, count + 1,
                         Meeting(case, ps, pd, Resume(ps, Cases[case].version, s, values), Resume(pd, 81, d, values),
                                 seen, count + 1))
    /\ UNCHANGED case

Next == Load \/ Answer

Spec == Init /\ [][Next]_vars
=============================================================================
