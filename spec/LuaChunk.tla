------------------------------ MODULE LuaChunk -----------------------------
(***************************************************************************)
(* The grammar of Lua 5.0 and Lua 5.1 binary chunks (lundump.c): a reader  *)
(* that either yields the function tree or the first thing wrong with it.  *)
(*                                                                         *)
(* A function is the record                                                *)
(*   source   <<>> when absent, else <<bytes>> (with the final zero)       *)
(*   line, last        first and last line, eight byte words               *)
(*   nups, params, vararg, stack                                           *)
(*   code     decoded instructions                                         *)
(*   consts   <<"nil">>, <<"bool", 0/1>>, <<"num", number>>, <<"str", s>>  *)
(*   subs     nested functions                                             *)
(*   lines    line of each instruction, eight byte words                   *)
(*   locals   <<name, start, end>>                                         *)
(*   upnames  names of the upvalues                                        *)
(* where a string s is <<>> (absent) or <<bytes>>.                         *)
(***************************************************************************)
EXTENDS LuaOpcodes

MaximumNesting == 200     \* LUAI_MAXCCALLS, the limit of Lua's own reader

ReadByte(bytes, p) == IF p <= Len(bytes) THEN Good(p + 1, bytes[p]) ELSE Short

ReadWord(bytes, p, width, little) ==
    IF p + width - 1 <= Len(bytes)
    THEN Good(p + width, SignExtend(LittleFirst(SubSeq(bytes, p, p + width - 1), little)))
    ELSE Short

ReadInt(bytes, p, f) == ReadWord(bytes, p, f.iw, f.little)

ReadString(bytes, p, f) ==
    LET size == ReadWord(bytes, p, f.sw, f.little)
        n == Saturate(size.v)
    IN  IF size.e # "" THEN size
        ELSE IF n < 0 \/ n > Len(bytes) - (size.p - 1) THEN Short
        ELSE IF n = 0 THEN Good(size.p, <<>>)
        ELSE Good(size.p + n, <<SubSeq(bytes, size.p, size.p + n - 1)>>)

\* A negative count is read as a huge one, so that it runs into the end of the input.
Count(word) == LET n == Saturate(word) IN IF n < 0 THEN BIG ELSE n

\* `count` items of one or more bytes each, read one after the other by One.
ReadItems(bytes, p, count, One(_)) ==
    LET room == Len(bytes) - p + 1
        tries == IF count <= room THEN count ELSE room + 1
        \* runs of steps, so that an early error ends the work
        Step(state, i) ==
            IF state.e # "" THEN state
            ELSE LET r == One(state.p)
                 IN  IF r.e # "" THEN r ELSE Good(r.p, Append(state.v, r.v))
    IN  FoldLeft(Step, Good(p, <<>>), [i \in 1..tries |-> i])

ReadLines(bytes, p, f) ==
    LET n == ReadInt(bytes, p, f)
        count == Count(n.v)
        room == (Len(bytes) - n.p + 1) \div f.iw
    IN  IF n.e # "" THEN n
        ELSE IF count > room THEN Short
        ELSE Good(n.p + count * f.iw,
                  TLCEval([i \in 1..count |->
                     SignExtend(LittleFirst(SubSeq(bytes, n.p + (i - 1) * f.iw, n.p + i * f.iw - 1), f.little))]))

ReadCode(bytes, p, f, version, dialect) ==
    LET n == ReadInt(bytes, p, f)
        count == Count(n.v)
        room == (Len(bytes) - n.p + 1) \div f.cw
        whole == IF count <= room THEN count ELSE room
        words == TLCEval([i \in 1..whole |->
                     ZeroExtend(LittleFirst(SubSeq(bytes, n.p + (i - 1) * f.cw, n.p + i * f.cw - 1), f.little))])
        raw == version = 81 /\ \E i \in 1..whole : RawAfter(words[i], version, dialect)
        mask == IF raw THEN InstructionMask(words, version, dialect, <<>>) ELSE [i \in 1..whole |-> TRUE]
        known == Len(Opcodes(version))
        wrong == { i \in 1..whole : mask[i] /\ OpcodeOf(words[i], dialect) >= known }
        first == CHOOSE i \in wrong : \A j \in wrong : i <= j
    IN  IF n.e # "" THEN n
        ELSE IF wrong # {} THEN Bad("InvalidOpcode", <<OpcodeOf(words[first], dialect)>>)
        ELSE IF whole < count THEN Short
        ELSE Good(n.p + count * f.cw, DecodeAll(words, version, dialect))

ReadNumber(bytes, p, f) ==
    IF p + f.nw - 1 > Len(bytes) THEN Short
    ELSE LET word == LittleFirst(SubSeq(bytes, p, p + f.nw - 1), f.little)
         IN  Good(p + f.nw, IF f.integral THEN NumberOfInteger(word) ELSE NumberOfFloat(word))

ReadConstant(bytes, p, f) ==
    LET t == ReadByte(bytes, p)
        Wrap(kind, r) == IF r.e # "" THEN r ELSE Good(r.p, <<kind, r.v>>)
    IN  IF t.e # "" THEN t
        ELSE CASE t.v = 0 -> Good(t.p, <<"nil">>)
               [] t.v = 1 -> LET b == ReadByte(bytes, t.p)
                             IN  IF b.e # "" THEN b ELSE Good(b.p, <<"bool", IF b.v = 0 THEN 0 ELSE 1>>)
               [] t.v = 3 -> Wrap("num", ReadNumber(bytes, t.p, f))
               [] t.v = 4 -> Wrap("str", ReadString(bytes, t.p, f))
               [] OTHER -> Bad("InvalidConstantType", <<t.v>>)

ReadConstants(bytes, p, f) ==
    LET n == ReadInt(bytes, p, f)
    IN  IF n.e # "" THEN n ELSE ReadItems(bytes, n.p, Count(n.v), LAMBDA q : ReadConstant(bytes, q, f))

ReadLocal(bytes, p, f) ==
    LET name == ReadString(bytes, p, f)
        from == ReadInt(bytes, name.p, f)
        to == ReadInt(bytes, from.p, f)
    IN  IF name.e # "" THEN name
        ELSE IF from.e # "" THEN from
        ELSE IF to.e # "" THEN to
        ELSE Good(to.p, <<name.v, from.v, to.v>>)

ReadLocals(bytes, p, f) ==
    LET n == ReadInt(bytes, p, f)
    IN  IF n.e # "" THEN n ELSE ReadItems(bytes, n.p, Count(n.v), LAMBDA q : ReadLocal(bytes, q, f))

ReadNames(bytes, p, f) ==
    LET n == ReadInt(bytes, p, f)
    IN  IF n.e # "" THEN n ELSE ReadItems(bytes, n.p, Count(n.v), LAMBDA q : ReadString(bytes, q, f))

RECURSIVE ReadFunction(_, _, _, _, _, _)
ReadFunction(bytes, p, f, version, dialect, depth) ==
    LET name == ReadString(bytes, p, f)
        line == ReadInt(bytes, name.p, f)
        last == IF version = 81 THEN ReadInt(bytes, line.p, f) ELSE line
        q == last.p
        Sub(at) ==
            LET n == ReadInt(bytes, at, f)
            IN  IF n.e # "" THEN n
                ELSE ReadItems(bytes, n.p, Count(n.v), LAMBDA r : ReadFunction(bytes, r, f, version, dialect, depth + 1))
        Whole(end, code, consts, subs, lines, locals, upnames) ==
            Good(end, [ source |-> name.v, line |-> line.v, last |-> last.v,
                        nups |-> bytes[q], params |-> bytes[q + 1], vararg |-> bytes[q + 2], stack |-> bytes[q + 3],
                        code |-> code, consts |-> consts, subs |-> subs, lines |-> lines, locals |-> locals,
                        upnames |-> upnames ])
    IN  IF depth > MaximumNesting THEN Bad("TooDeep", <<>>)
        ELSE IF name.e # "" THEN name
        ELSE IF line.e # "" THEN line
        ELSE IF last.e # "" THEN last
        ELSE IF q + 3 > Len(bytes) THEN Short
        ELSE IF version = 81
        THEN LET code == ReadCode(bytes, q + 4, f, version, dialect) IN
             IF code.e # "" THEN code ELSE
             LET consts == ReadConstants(bytes, code.p, f) IN
             IF consts.e # "" THEN consts ELSE
             LET subs == Sub(consts.p) IN
             IF subs.e # "" THEN subs ELSE
             LET lines == ReadLines(bytes, subs.p, f) IN
             IF lines.e # "" THEN lines ELSE
             LET locals == ReadLocals(bytes, lines.p, f) IN
             IF locals.e # "" THEN locals ELSE
             LET names == ReadNames(bytes, locals.p, f) IN
             IF names.e # "" THEN names ELSE
             Whole(names.p, code.v, consts.v, subs.v, lines.v, locals.v, names.v)
        ELSE LET lines == ReadLines(bytes, q + 4, f) IN
             IF lines.e # "" THEN lines ELSE
             LET locals == ReadLocals(bytes, lines.p, f) IN
             IF locals.e # "" THEN locals ELSE
             LET names == ReadNames(bytes, locals.p, f) IN
             IF names.e # "" THEN names ELSE
             LET consts == ReadConstants(bytes, names.p, f) IN
             IF consts.e # "" THEN consts ELSE
             LET subs == Sub(consts.p) IN
             IF subs.e # "" THEN subs ELSE
             LET code == ReadCode(bytes, subs.p, f, version, dialect) IN
             IF code.e # "" THEN code ELSE
             Whole(code.p, code.v, consts.v, subs.v, lines.v, locals.v, names.v)

\* The whole chunk: v is [version, format, sig, main, spare] where spare counts the bytes after the end.
ReadChunk(bytes, settings) ==
    LET header == Header(bytes, settings)
    IN  IF header.e # "" THEN header
        ELSE LET dialect == IF header.v.version = 80 THEN settings.lua50 ELSE settings.lua51
                 main == ReadFunction(bytes, header.p, header.v.format, header.v.version, dialect, 1)
             IN  IF main.e # "" THEN main
                 ELSE Good(main.p, [ version |-> header.v.version, format |-> header.v.format, sig |-> header.v.sig,
                                     main |-> main.v, spare |-> Len(bytes) - main.p + 1 ])
=============================================================================
