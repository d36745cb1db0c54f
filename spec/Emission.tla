------------------------------- MODULE Emission ------------------------------
(***************************************************************************)
(* The byte code that compilers emit (lcode.c and lparser.c of Lua 5.0 and *)
(* Lua 5.1): a state machine that writes a program statement by statement, *)
(* choosing freely what comes next.                                        *)
(*                                                                         *)
(* A conversion may rely on how registers, jumps and batches are used in   *)
(* code of this kind, and on nothing else.  Every finished program is      *)
(* printed, to be encoded and given to the real code; the result is judged *)
(* by Product and Judge.  Within the bounds below the programs are all     *)
(* programs of the menu, so that no combination is left to chance.         *)
(*                                                                         *)
(*   VERSION     80 or 81                                                  *)
(*   BATCH       fields per flush of the emitted code                      *)
(*   STATEMENTS  how many statements a program has at most                 *)
(*   NESTING     how many blocks and functions are open at most            *)
(*   MENU        which statements there are                                *)
(*   PART, PARTS only every PARTS-th program is printed (by a hash)        *)
(***************************************************************************)
EXTENDS LuaVerifier, Json, IOUtils

Setting(name, default) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE default
Version == Setting("VERSION", 80)
Batch == Setting("BATCH", 2)
Statements == Setting("STATEMENTS", 2)
Nesting == Setting("NESTING", 2)
Parts == Setting("PARTS", 1)
Part == Setting("PART", 0)

Old == Version = 80

VARIABLES fs,     \* the functions being written, from the outermost to the innermost
          left,   \* statements that may still come
          trail   \* the choices so far, to tell programs apart by
vars == <<fs, left, trail>>

(***************************************************************************)
(* A function under construction.                                          *)
(*   act      registers taken by local variables                           *)
(*   vis      registers of the variables that the program can name         *)
(*   ups      upvalues: <<depth of the owner, register>>                   *)
(*   cap      registers captured by closures                               *)
(*   label    the last instruction that a jump may lead to                 *)
(*   blocks   open blocks                                                  *)
(***************************************************************************)
Name(bytes) == <<"str", <<bytes \o <<0>>>>>>
Nf == Name(<<102>>)
Ng == Name(<<103>>)
Nv == Name(<<118>>)
Nkey == Name(<<107, 101, 121>>)
Num(n) == <<"num", Normal(IF n < 0 THEN 1 ELSE 0, BitsOf(<<IF n < 0 THEN -n ELSE n>>), 0)>>

NewFunction(params, vararg, line) ==
    LET own == params + (IF vararg /\ Old THEN 1 ELSE 0)
    IN  [ code |-> <<>>, lines |-> <<>>, line |-> line, first |-> line, consts |-> <<>>, subs |-> <<>>, act |-> own,
          vis |-> [j \in 1..own |-> j - 1], top |-> IF own < 2 THEN 2 ELSE own, params |-> params, va |-> vararg, ups |-> <<>>,
          cap |-> {}, label |-> 0, blocks |-> <<>>, fresh |-> TRUE ]

Here(f) == Len(f.code) + 1
Emit(f, o, a, b, c, x) ==
    [f EXCEPT !.code = Append(@, [ o |-> o, a |-> a, b |-> b, c |-> c, x |-> x, u |-> TRUE ]), !.lines = Append(@, f.line)]
Reg3(f, o, a, b, c) == Emit(f, o, a, b, c, 0)
Use(f, registers) == [f EXCEPT !.top = IF registers > @ THEN registers ELSE @]

\* constants
Known(f, k) == { j \in 1..Len(f.consts) : f.consts[j] = k }
WithK(f, k) == IF Known(f, k) = {} THEN [f EXCEPT !.consts = Append(@, k)] ELSE f
KIndex(f, k) == (CHOOSE j \in Known(f, k) : TRUE) - 1
EmitK(f, o, a, k) == LET g == WithK(f, k) IN Emit(g, o, a, 0, 0, KIndex(g, k))
Load(f, r, k) == EmitK(Use(f, r + 1), "LOADK", r, k)
Global(f, r, k) == EmitK(Use(f, r + 1), "GETGLOBAL", r, k)

\* jumps
Jump(f) == Emit(f, "JMP", 0, 0, 0, 0)
PatchTo(f, at, target) == [f EXCEPT !.code[at].x = target - at - 1]
PatchAll(f, list, target) == FoldLeft(LAMBDA g, at : PatchTo(g, at, target), f, list)
Label(f) == [f EXCEPT !.label = Here(f)]
PatchHere(f, list) == IF list = <<>> THEN f ELSE Label(PatchAll(f, list, Here(f)))

\* consecutive nils become one instruction, if no jump leads in between
LoadNil(f, r, last) ==
    LET g == Use(f, last + 1)
        n == Len(f.code)
        merge == n > 0 /\ f.label # n + 1 /\ f.code[n].o = "LOADNIL" /\ f.code[n].a <= r /\ r <= f.code[n].b + 1
    IN  IF ~merge THEN Reg3(g, "LOADNIL", r, last, 0)
        ELSE IF last > f.code[n].b THEN [g EXCEPT !.code[n].b = last] ELSE g

\* a test of register r, followed by a jump that is taken when its truth is `when`
Test(f, r, when) == Jump(IF Old THEN Reg3(f, "TEST", r, r, when) ELSE Reg3(f, "TEST", r, 0, when))

Visible(f) == f.vis # <<>>
Newest(f) == f.vis[Len(f.vis)]
Declare(f, n) == [f EXCEPT !.vis = @ \o [j \in 1..n |-> f.act + j - 1], !.act = @ + n]

(***************************************************************************)
(* Expressions: a value in the first free register r.                      *)
(***************************************************************************)
Value(f, r, kind) ==
    LET g == Use(f, r + 1)
        v == IF Visible(f) THEN Newest(f) ELSE r
    IN  CASE kind = "number" -> Load(f, r, Num(7))
          [] kind = "global" -> Global(f, r, Ng)
          [] kind = "nil" -> LoadNil(f, r, r)
          [] kind = "variable" -> IF Visible(f) THEN Reg3(g, "MOVE", r, v, 0) ELSE Global(f, r, Nv)
          [] kind = "call" -> Reg3(Global(f, r, Ng), "CALL", r, 1, 2)
          [] kind = "method" ->
               LET h == WithK(Global(f, r, Ng), Nkey)
               IN  Reg3(Use(Reg3(h, "SELF", r, r, -(KIndex(h, Nkey) + 1)), r + 2), "CALL", r, 2, 2)
          [] kind = "and" ->
               LET source == IF Visible(f) THEN g ELSE Global(f, r, Nv)
                   test == IF Old THEN Reg3(source, "TEST", r, v, 0)
                           ELSE IF v = r THEN Reg3(source, "TEST", r, 0, 0) ELSE Reg3(source, "TESTSET", r, v, 0)
                   jump == Jump(test)
               IN  PatchHere(Global(jump, r, Ng), <<Len(jump.code)>>)
          [] kind = "less" ->
               LET h == WithK(g, Num(3))
                   source == IF Visible(f) THEN h ELSE Global(h, r, Nv)
                   test == Reg3(source, "LT", 1, v, -(KIndex(h, Num(3)) + 1))
                   jump == Emit(test, "JMP", 0, 0, 0, 1)
               IN  Label(Reg3(Label(Reg3(jump, "LOADBOOL", r, 0, 1)), "LOADBOOL", r, 1, 0))
          [] kind = "concat" -> Reg3(Use(Global(Global(f, r, Ng), r + 1, Nv), r + 2), "CONCAT", r, r, r + 1)
          [] kind = "table" ->
               \* a constructor with two items in a constructor
               LET t == Load(Load(Reg3(g, "NEWTABLE", r, 0, 0), r + 1, Num(1)), r + 2, Num(2))
               IN  IF Batch = 1
                   THEN IF Old
                        THEN Emit(Load(Emit(Load(Reg3(g, "NEWTABLE", r, 0, 0), r + 1, Num(1)), "SETLIST", r, 0, 0, 0),
                                       r + 1, Num(2)), "SETLIST", r, 0, 0, 1)
                        ELSE Reg3(Load(Reg3(Load(Reg3(g, "NEWTABLE", r, 0, 0), r + 1, Num(1)), "SETLIST", r, 1, 1),
                                       r + 1, Num(2)), "SETLIST", r, 1, 2)
                   ELSE IF Old THEN Emit(t, "SETLIST", r, 0, 0, 1) ELSE Reg3(t, "SETLIST", r, 2, 1)

\* a constructor: items are kinds of values, "key" is a keyed item, "open" (only at the end) all results of a call
Flush(f, t, count, pending) ==
    IF Old THEN Emit(f, "SETLIST", t, 0, 0, count - 1)
    ELSE Reg3(f, "SETLIST", t, pending, ((count - 1) \div Batch) + 1)

Constructor(f, t, items) ==
    LET \* acc is <<function, count, pending>>
        Item(acc, kind) ==
            LET flush == acc[3] = Batch
                g == IF flush THEN Flush(acc[1], t, acc[2], acc[3]) ELSE acc[1]
                pending == IF flush THEN 0 ELSE acc[3]
                r == t + 1 + pending
            IN  CASE kind = "key" ->
                       LET h == WithK(g, Nkey)
                       IN  <<Reg3(Global(h, r, Nv), "SETTABLE", t, -(KIndex(h, Nkey) + 1), r), acc[2], pending>>
                  [] kind = "open" ->
                       LET h == Reg3(Global(g, r, Ng), "CALL", r, 1, 0)
                           count == acc[2] + 1
                       IN  << IF Old THEN Emit(h, "SETLISTO", t, 0, 0, count - 1)
                              ELSE Reg3(h, "SETLIST", t, 0, ((count - 1) \div Batch) + 1), count, 0>>
                  [] OTHER -> <<Value(g, r, kind), acc[2] + 1, pending + 1>>
        all == FoldLeft(Item, <<Reg3(Use(f, t + 1), "NEWTABLE", t, 0, 0), 0, 0>>, items)
    IN  IF all[3] > 0 THEN Flush(all[1], t, all[2], all[3]) ELSE all[1]

\* f(the variables in sight)
Observe(f) ==
    LET n == IF Len(f.vis) > 4 THEN 4 ELSE Len(f.vis)
        base == f.act
        moved == FoldLeft(LAMBDA g, j : Reg3(g, "MOVE", base + j, f.vis[Len(f.vis) - n + j], 0),
                          Use(Global(f, base, Nf), base + n + 1), [j \in 1..n |-> j])
    IN  Reg3(moved, "CALL", base, n + 1, 1)

(***************************************************************************)
(* Blocks.  pend are jumps behind the block, breaks those of `break`.      *)
(***************************************************************************)
Open(f, kind, start, pend, base) ==
    [f EXCEPT !.blocks = Append(@, [ kind |-> kind, act |-> f.act, vis |-> f.vis, start |-> start, pend |-> pend, breaks |-> <<>>,
                                     base |-> base, n |-> 0 ]), !.fresh = TRUE]
Top(f) == f.blocks[Len(f.blocks)]

\* ends the scope down to `act` registers
CloseScope(f, act, vis) ==
    LET captured == { r \in f.cap : r >= act }
        low == CHOOSE r \in captured : \A q \in captured : r <= q
        g == IF captured = {} THEN f ELSE Reg3(f, "CLOSE", low, 0, 0)
    IN  [g EXCEPT !.act = act, !.vis = vis, !.cap = @ \ captured]

Pop(f) == [f EXCEPT !.blocks = SubSeq(@, 1, Len(@) - 1), !.fresh = FALSE]

EndBlock(f0) ==
    LET b == Top(f0)
        f == CloseScope(Observe(f0), b.act, b.vis)
        popped == Pop(f)
        outer(g) == CloseScope(g, b.base, SelectSeq(b.vis, LAMBDA r : r < b.base))
    IN  CASE b.kind = "if" -> PatchHere(popped, b.pend)
          [] b.kind = "while" ->
               IF Old
               THEN \* the condition stands behind the body
                    LET cond == PatchHere(popped, b.pend)
                        test == Test(Global(cond, cond.act, Nv), cond.act, 1)
                    IN  PatchHere(PatchTo(test, Len(test.code), b.start), b.breaks)
               ELSE LET back == Jump(popped)
                    IN  PatchHere(PatchTo(back, Len(back.code), b.start), b.pend \o b.breaks)
          [] b.kind = "repeat" ->
               LET test == Test(Global(popped, popped.act, Nv), popped.act, 0)
               IN  PatchHere(PatchTo(test, Len(test.code), b.start), b.breaks)
          [] b.kind = "for" ->
               LET here == PatchHere(popped, b.pend)
                   loop == Emit(here, "FORLOOP", b.base, 0, 0, b.start - Here(here) - 1)
               IN  outer(PatchHere(loop, b.breaks))
          [] b.kind = "forin" ->
               LET here == PatchHere(popped, b.pend)
                   names == Len(SelectSeq(b.vis, LAMBDA r : r >= b.base))
                   wide == Use(here, b.base + names + 6)
                   loop == Jump(IF Old THEN Reg3(wide, "TFORLOOP", b.base, 0, names - 1) ELSE Reg3(wide, "TFORLOOP", b.base, 0, names))
               IN  outer(PatchHere(PatchTo(loop, Len(loop.code), b.start), b.breaks))

\* `if .. else`: the block goes on with another one
Otherwise(f0) ==
    LET b == Top(f0)
        f == Jump(CloseScope(Observe(f0), b.act, b.vis))
        g == PatchHere(f, b.pend)
    IN  [Open(Pop(g), "if", 1, <<Len(f.code)>>, 0) EXCEPT !.fresh = TRUE]

LoopAt(f) == { j \in 1..Len(f.blocks) : f.blocks[j].kind # "if" }
InnerLoop(f) == CHOOSE j \in LoopAt(f) : \A q \in LoopAt(f) : q <= j

(***************************************************************************)
(* Functions.                                                              *)
(***************************************************************************)
\* the upvalue of function d for register `reg` of function `owner`
RECURSIVE Need(_, _, _, _)
Need(list, d, owner, reg) ==
    LET has == \E j \in 1..Len(list[d].ups) : list[d].ups[j] = <<owner, reg>>
        added == IF has THEN list ELSE [list EXCEPT ![d].ups = Append(@, <<owner, reg>>)]
    IN  IF owner = d - 1 THEN [added EXCEPT ![owner].cap = @ \cup {reg}] ELSE Need(added, d - 1, owner, reg)
UpIndex(f, owner, reg) == (CHOOSE j \in 1..Len(f.ups) : f.ups[j] = <<owner, reg>>) - 1

Finished(f) ==
    LET g == Reg3(Observe(f), "RETURN", 0, 1, 0)
        h == IF Visible(f) THEN Reg3(Reg3(Observe(f), "RETURN", Newest(f), 2, 0), "RETURN", 0, 1, 0) ELSE g
    IN  [ source |-> <<>>, line |-> <<f.first>>, last |-> <<f.line>>, nups |-> Len(f.ups), params |-> f.params,
          vararg |-> IF ~f.va THEN 0 ELSE IF Old THEN 1 ELSE 2, stack |-> h.top, code |-> h.code, consts |-> h.consts,
          subs |-> h.subs, lines |-> h.lines, locals |-> <<>>, upnames |-> <<>> ]

\* local q = function .. end; f(q(g, 2))
EndFunction(list) ==
    LET d == Len(list)
        inner == list[d]
        outer == [list[d - 1] EXCEPT !.subs = Append(@, Finished(inner)), !.line = inner.line + 1, !.fresh = FALSE]
        t == outer.act
        closure == Emit(Use(outer, t + 1), "CLOSURE", t, 0, 0, Len(outer.subs) - 1)
        captured == FoldLeft(LAMBDA g, up : IF up[1] = d - 1 THEN Reg3(g, "MOVE", 0, up[2], 0)
                                            ELSE Reg3(g, "GETUPVAL", 0, UpIndex(g, up[1], up[2]), 0), closure, inner.ups)
        named == Declare(captured, 1)
        call == Load(Global(Use(Reg3(Global(named, t + 1, Nf), "MOVE", t + 2, t, 0), t + 3), t + 3, Ng), t + 4, Num(2))
        called == Reg3(Reg3(call, "CALL", t + 2, 3, 0), "CALL", t + 1, 0, 1)
    IN  [SubSeq(list, 1, d - 1) EXCEPT ![d - 1] = called]

(***************************************************************************)
(* Statements.                                                             *)
(***************************************************************************)
Plain == { "local", "empty", "two", "assign", "and", "less", "global", "field" }
Branches == { "if", "while", "repeat", "break", "return", "tail" }
Lists(kind) ==
    \* items of constructors: all lengths around the border of a batch with something special at each place
    CASE kind = "list" -> { [j \in 1..n |-> "number"] : n \in {Batch, 2 * Batch + 1} }
      [] kind = "shapes" -> UNION { { [[j \in 1..n |-> "number"] EXCEPT ![at] = s] : at \in 1..n } :
                                       n \in {Batch + 1}, s \in {"and", "less", "call", "table", "key", "nil", "method", "concat"} }
      [] kind = "pairs" -> { <<a, b, c>> : a, c \in {"number", "and", "nil", "key", "table"}, b \in {"nil", "less", "call", "key"} }
      [] kind = "open" -> { [j \in 1..n |-> IF j = n THEN "open" ELSE "number"] : n \in 1..(2 * Batch + 1) }
      [] kind = "nils" -> { [j \in 1..n |-> IF j >= from /\ j <= to THEN "nil" ELSE "number"] :
                               n \in {2 * Batch + 1}, from \in 1..2, to \in (2 * Batch)..(2 * Batch + 1) }

MenuOf(name) ==
    CASE name = "branch" -> Plain \cup Branches \cup { "else" }
      [] name = "for" -> { "local", "assign", "if", "while", "break", "for", "down", "function", "return", "forin1" }
      [] name = "forin" -> { "local", "if", "break", "for", "forin1", "forin2", "forin4", "pairs1", "pairs2", "function" }
      [] name = "table" -> { "local", "if", "for", "list", "shapes", "open", "nils" }
      [] name = "items" -> { "shapes", "pairs", "open", "nils", "list" }
      [] name = "vararg" -> { "variadic0", "variadic1", "variadic2", "if", "while", "repeat", "for", "local", "return", "assign" }
      [] name = "closure" -> { "local", "function", "outer", "setouter", "variadic1", "if", "while", "for", "forin1", "break", "assign" }
      [] name = "mixed" -> { "local", "and", "if", "else", "while", "repeat", "break", "for", "forin1", "forin2", "pairs2", "list",
                             "open", "function", "outer", "variadic1", "return" }

Menu == MenuOf(IF "MENU" \in DOMAIN IOEnv THEN IOEnv.MENU ELSE "branch")

Openings == { "if", "while", "repeat", "for", "down", "forin1", "forin2", "forin4", "pairs1", "pairs2" }
Functions50 == { "function", "variadic0", "variadic1", "variadic2" }

\* the function after a statement that needs nothing but the function itself
Simple(f0, kind, items) ==
    LET f == [f0 EXCEPT !.line = @ + 1, !.fresh = FALSE]
        r == f.act
    IN  CASE kind = "local" -> Declare(Value(f, r, "call"), 1)
          [] kind = "empty" -> Declare(LoadNil(f, r, r), 1)
          [] kind = "two" -> Declare(Use(Reg3(Global(f, r, Ng), "CALL", r, 1, 3), r + 2), 2)
          [] kind = "and" -> Declare(Value(f, r, "and"), 1)
          [] kind = "less" -> Declare(Value(f, r, "less"), 1)
          [] kind = "assign" -> Reg3(Value(f, r, "call"), "MOVE", Newest(f), r, 0)
          [] kind = "global" -> IF Visible(f) THEN EmitK(f, "SETGLOBAL", Newest(f), Nv) ELSE EmitK(Global(f, r, Ng), "SETGLOBAL", r, Nv)
          [] kind = "field" ->
               LET g == WithK(Global(f, r, Ng), Nkey)
               IN  Reg3(g, "SETTABLE", r, -(KIndex(g, Nkey) + 1), IF Visible(f) THEN Newest(f) ELSE r)
          [] kind \in { "list", "shapes", "pairs", "open", "nils" } -> Declare(Constructor(f, r, items), 1)
          [] kind = "break" ->
               \* if v then break end
               LET test == Test(Global(f, r, Nv), r, 0)
                   loop == InnerLoop(f)
                   jump == Jump(IF \E q \in f.cap : q >= f.blocks[loop].act THEN Reg3(test, "CLOSE", f.blocks[loop].act, 0, 0) ELSE test)
                   noted == [jump EXCEPT !.blocks[loop].breaks = Append(@, Len(jump.code))]
               IN  PatchHere(noted, <<Len(test.code)>>)
          [] kind = "return" ->
               LET test == Test(Global(f, r, Nv), r, 0)
               IN  PatchHere(IF Visible(f) THEN Reg3(test, "RETURN", Newest(f), 2, 0) ELSE Reg3(test, "RETURN", 0, 1, 0), <<Len(test.code)>>)
          [] kind = "tail" ->
               LET test == Test(Global(f, r, Nv), r, 0)
                   call == Reg3(Value(Global(test, r, Ng), r + 1, "variable"), "TAILCALL", r, 2, 0)
               IN  PatchHere(Reg3(call, "RETURN", r, 0, 0), <<Len(test.code)>>)
          [] kind = "if" ->
               LET v == IF Visible(f) THEN Newest(f) ELSE r
                   test == Test(IF Visible(f) THEN f ELSE Global(f, r, Nv), v, 0)
               IN  Open(test, "if", 0, <<Len(test.code)>>, 0)
          [] kind = "while" ->
               IF Old THEN LET jump == Label(Jump(f)) IN Open([jump EXCEPT !.label = Here(jump)], "while", Here(jump), <<Len(jump.code)>>, 0)
               ELSE LET start == Label(f)
                        test == Test(Global(start, r, Nv), r, 0)
                    IN  Open(test, "while", Here(start), <<Len(test.code)>>, 0)
          [] kind = "repeat" -> LET start == Label(f) IN Open(start, "repeat", Here(start), <<>>, 0)
          [] kind \in { "for", "down" } ->
               LET up == kind = "for"
                   bounds == Load(Load(Load(f, r, Num(IF up THEN 1 ELSE 2)), r + 1, Num(IF up THEN 2 ELSE 1)), r + 2, Num(IF up THEN 1 ELSE -1))
               IN  IF Old
                   THEN LET jump == Jump(Reg3(bounds, "SUB", r, r, r + 2))
                            scoped == [jump EXCEPT !.act = r + 3, !.vis = Append(@, r)]
                        IN  Open(Label(scoped), "for", Here(jump), <<Len(jump.code)>>, r)
                   ELSE LET prep == Emit(Use(bounds, r + 4), "FORPREP", r, 0, 0, 0)
                            scoped == [prep EXCEPT !.act = r + 4, !.vis = Append(@, r + 3)]
                        IN  Open(Label(scoped), "for", Here(prep), <<Len(prep.code)>>, r)
          [] kind \in { "forin1", "forin2", "forin4", "pairs1", "pairs2" } ->
               LET names == CASE kind \in {"forin1", "pairs1"} -> 1 [] kind = "forin4" -> 4 [] OTHER -> 2
                   hidden == IF Old THEN 2 ELSE 3
                   total == hidden + (IF Old THEN names ELSE 0)
                   first == IF kind \in {"pairs1", "pairs2"} /\ Old THEN Value(f, r, "table") ELSE Global(f, r, Ng)
                   filled == LoadNil(first, r + 1, r + total - 1)
                   prep == IF Old THEN Emit(filled, "TFORPREP", r, 0, 0, 0) ELSE Jump(filled)
                   scoped == [Use(prep, r + hidden + names) EXCEPT !.act = r + hidden + names, !.vis = @ \o [j \in 1..names |-> r + hidden + j - 1]]
               IN  Open(Label(scoped), "forin", Here(prep), <<Len(prep.code)>>, r)

Allowed(f, kind) ==
    CASE kind = "assign" -> Visible(f)
      [] kind = "break" -> LoopAt(f) # {}
      [] kind \in { "outer", "setouter" } -> Len(fs) > 1 /\ Visible(fs[Len(fs) - 1])
      [] kind = "else" -> FALSE
      [] kind \in Openings \cup Functions50 ->
           left > 1 /\ FoldLeft(LAMBDA acc, g : acc + Len(g.blocks), Len(fs) - 1, fs) < Nesting
      [] OTHER -> TRUE

D == Len(fs)
Current == fs[D]

Replace(f) == [fs EXCEPT ![D] = f]

Statement(kind) ==
    /\ left > 0
    /\ Allowed(Current, kind)
    /\ left' = left - 1
    /\ IF kind \in Functions50
       THEN LET variadic == kind # "function"
                params == CASE kind = "variadic0" -> 0 [] kind = "variadic2" -> 2 [] OTHER -> 1
            IN  /\ fs' = Append(Replace([Current EXCEPT !.fresh = FALSE]), NewFunction(params, variadic, Current.line + 1))
                /\ trail' = Append(trail, kind)
       ELSE IF kind \in { "outer", "setouter" }
       THEN LET owner == D - 1
                reg == Newest(fs[owner])
                needed == Need(fs, D, owner, reg)
                f == [needed[D] EXCEPT !.line = @ + 1, !.fresh = FALSE]
                r == f.act
                up == UpIndex(f, owner, reg)
                g == IF kind = "outer"
                     THEN Reg3(Use(Reg3(Global(f, r, Nf), "GETUPVAL", r + 1, up, 0), r + 2), "CALL", r, 2, 1)
                     ELSE Reg3(Value(f, r, "call"), "SETUPVAL", r, up, 0)
            IN  fs' = [needed EXCEPT ![D] = g] /\ trail' = Append(trail, kind)
       ELSE IF kind \in { "list", "shapes", "pairs", "open", "nils" }
       THEN \E items \in Lists(kind) : fs' = Replace(Simple(Current, kind, items)) /\ trail' = Append(trail, ToString(<<kind, items>>))
       ELSE fs' = Replace(Simple(Current, kind, <<>>)) /\ trail' = Append(trail, kind)

\* Blocks and functions end when they have contents.
End ==
    /\ ~Current.fresh
    /\ UNCHANGED left
    /\ trail' = Append(trail, "end")
    /\ \/ Current.blocks # <<>> /\ fs' = Replace(EndBlock(Current))
       \/ Current.blocks = <<>> /\ D > 1 /\ fs' = EndFunction(fs)

Else ==
    /\ "else" \in Menu
    /\ left > 0 /\ ~Current.fresh /\ Current.blocks # <<>> /\ Top(Current).kind = "if" /\ Top(Current).start = 0
    /\ Len(Top(Current).pend) = 1
    /\ UNCHANGED left
    /\ trail' = Append(trail, "else")
    /\ fs' = Replace(Otherwise(Current))

Done == D = 1 /\ Current.blocks = <<>> /\ ~Current.fresh

(***************************************************************************)
(* Finished programs.                                                      *)
(***************************************************************************)
Exported(k) == IF k[1] = "num" THEN <<"num", SmallValue(k[2])>> ELSE <<"str", k[2][1]>>
RECURSIVE Export(_)
Export(fn) ==
    [ code |-> [j \in 1..Len(fn.code) |-> LET i == fn.code[j] IN <<i.o, i.a, i.b, i.c, i.x>>],
      consts |-> [j \in 1..Len(fn.consts) |-> Exported(fn.consts[j])], subs |-> [j \in 1..Len(fn.subs) |-> Export(fn.subs[j])],
      params |-> fn.params, vararg |-> fn.vararg, stack |-> fn.stack, nups |-> fn.nups, lines |-> fn.lines,
      line |-> fn.line[1], last |-> fn.last[1] ]

Dialect == [ limit |-> 250, fpf |-> Batch ]
Hash(list) == FoldLeft(LAMBDA acc, j : (acc * 31 + Len(list[j]) * 7 + j) % 65521, 17, [j \in 1..Len(list) |-> j])

\* Programs are complete whenever everything is closed; they are printed when nothing more may come or by choice.
Shown ==
    LET main == Finished(Current)
    IN  IF Parts > 1 /\ Hash(trail) % Parts # Part THEN TRUE
        ELSE PrintT("EMITTED|" \o ToJson([ trail |-> trail, main |-> Export(main) ]))

Init == fs = <<NewFunction(0, FALSE, 1)>> /\ left = Statements /\ trail = <<>>

Next ==
    \/ \E kind \in Menu : Statement(kind)
    \/ End
    \/ Else

Spec == Init /\ [][Next]_vars

\* The loader of Lua accepts what its compiler emits, and every finished program is printed on the way.
Loadable == Done => LET complaint == ComplaintDeep(Finished(Current), Version, Dialect)
                    IN  complaint = "" \/ (PrintT("UNLOADABLE " \o complaint \o ToString(trail)) /\ FALSE)
Printed == Done => Shown

=============================================================================
