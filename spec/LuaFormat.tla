------------------------------ MODULE LuaFormat -----------------------------
(***************************************************************************)
(* Binary formats, instruction layouts, compile constants, chunk headers.  *)
(***************************************************************************)
EXTENDS LuaBytes

(***************************************************************************)
(* An instruction layout is a sequence of four <<operand, size>> pairs,    *)
(* lowest bits first; operands are 1 (opcode), 2 (A), 3 (B), 4 (C).        *)
(***************************************************************************)
OPC == 1
OPA == 2
OPB == 3
OPCC == 4

MinimumSize == <<6, 7, 8, 8>>

SumTo(spec, n) == FoldLeft(LAMBDA sum, i : sum + spec[i][2], 0, [i \in 1..n |-> i])
PlaceOf(spec, operand) == CHOOSE i \in 1..4 : spec[i][1] = operand

LayoutTotal(spec) == SumTo(spec, 4)

ValidLayout(spec) ==
    /\ { spec[i][1] : i \in 1..4 } = 1..4
    /\ \A i \in 1..4 : spec[i][2] >= MinimumSize[spec[i][1]] /\ spec[i][2] < 32
    /\ LET b == PlaceOf(spec, OPB)
           c == PlaceOf(spec, OPCC)
       IN  b = c + 1 \/ c = b + 1
    /\ LayoutTotal(spec) <= 64

Layout(spec) ==
    LET size(o) == spec[PlaceOf(spec, o)][2]
        position(o) == SumTo(spec, PlaceOf(spec, o) - 1)
        bp == position(OPB)
        cp == position(OPCC)
    IN  [ os |-> size(OPC), op |-> position(OPC),
          as |-> size(OPA), ap |-> position(OPA),
          bs |-> size(OPB), bp |-> bp,
          cs |-> size(OPCC), cp |-> cp,
          xs |-> size(OPB) + size(OPCC), xp |-> IF bp < cp THEN bp ELSE cp,
          total |-> LayoutTotal(spec) ]

(***************************************************************************)
(* Formats as the API states them: <<format byte, endianness (0 big, 1     *)
(* little), integer width, size_t width, instruction width, number width,  *)
(* integral (0/1)>> with widths in bytes.                                  *)
(***************************************************************************)
FormatOf(seq) ==
    [ tag |-> seq[1], little |-> seq[2] = 1, iw |-> seq[3], sw |-> seq[4], cw |-> seq[5], nw |-> seq[6],
      integral |-> seq[7] = 1 ]

\* A dialect is what the settings say about one Lua build.
DialectOf(d) == [ limit |-> d.limit, fpf |-> d.fpf, sig |-> d.sig, spec |-> d.layout, lay |-> Layout(d.layout) ]

SettingsOf(s) == [ lua50 |-> DialectOf(s[1]), lua51 |-> DialectOf(s[2]), output |-> DialectOf(s[3]) ]

(***************************************************************************)
(* What unmodified Lua has (MAXSTACK, LFIELDS_PER_FLUSH, LUA_SIGNATURE,    *)
(* SIZE_* and POS_* of either version), and the format of this machine.    *)
(***************************************************************************)
StandardSettings ==
    LET dialect(fpf, layout) == [ limit |-> 250, fpf |-> fpf, sig |-> <<27, 76, 117, 97>>, layout |-> layout ]
        five == dialect(50, << <<OPC, 6>>, <<OPA, 8>>, <<OPCC, 9>>, <<OPB, 9>> >>)
    IN  << dialect(32, << <<OPC, 6>>, <<OPCC, 9>>, <<OPB, 9>>, <<OPA, 8>> >>), five, five >>
StandardFormat == <<0, 1, 4, 8, 4, 8, 0>>

(***************************************************************************)
(* Results of reading: e is "" or the name of the error, a its payload.    *)
(***************************************************************************)
Good(position, value) == [ e |-> "", a |-> <<>>, p |-> position, v |-> value ]
Bad(error, payload) == [ e |-> error, a |-> payload, p |-> 0, v |-> <<>> ]
Short == Bad("InputTooShort", <<>>)

(***************************************************************************)
(* The number 3.14159265358979323846E7 which every Lua 5.0 chunk carries.  *)
(***************************************************************************)
TestNumber64 == NumberOfFloat(<<182, 9, 147, 104, 231, 245, 125, 65>>)
TestNumber(bytes) == RoundToFloat(TestNumber64, bytes)

StartsWith(bytes, signature) == Len(bytes) > Len(signature) /\ SubSeq(bytes, 1, Len(signature)) = signature

Widths == {4, 8}

\* Reads the header.  v is [version, sig, format], p the position of the first function.
\* Where one signature is the beginning of the other, the longer one tells more.
Header(bytes, settings) ==
    LET found50 == StartsWith(bytes, settings.lua50.sig)
        longer == Len(settings.lua51.sig) > Len(settings.lua50.sig) /\ StartsWith(bytes, settings.lua51.sig)
        sig == IF found50 /\ ~longer THEN settings.lua50.sig ELSE settings.lua51.sig
        at == Len(sig) + 1
        version == bytes[at]
        has(p) == p <= Len(bytes)
    IN  IF ~StartsWith(bytes, settings.lua50.sig) /\ ~StartsWith(bytes, settings.lua51.sig)
        THEN Bad("IncorrectSignature", <<>>)
        ELSE IF version \notin {80, 81} THEN Bad("UnsupportedVersion", <<version>>)
        ELSE LET p == IF version = 81 THEN at + 2 ELSE at + 1       \* endianness
                 expected == << settings.lua50.lay.os, settings.lua50.lay.as, settings.lua50.lay.bs, settings.lua50.lay.cs >>
                 found == SubSeq(bytes, p + 4, p + 7)
                 n == IF version = 81 THEN p + 4 ELSE p + 8          \* number width
                 little == bytes[p] = 1
                 numw == bytes[n]
                 body == IF version = 81 THEN n + 2 ELSE n + 1 + numw
                 number == NumberOfFloat(LittleFirst(SubSeq(bytes, n + 1, n + numw), little))
             IN  IF version = 81 /\ ~has(at + 1) THEN Short
                 ELSE IF ~has(p) THEN Short
                 ELSE IF bytes[p] \notin {0, 1} THEN Bad("InvaildEndianness", <<bytes[p]>>)
                 ELSE IF ~has(p + 1) THEN Short
                 ELSE IF bytes[p + 1] \notin Widths THEN Bad("UnsupportedIntegerWidth", <<bytes[p + 1]>>)
                 ELSE IF ~has(p + 2) THEN Short
                 ELSE IF bytes[p + 2] \notin Widths THEN Bad("UnsupportedSizeTWidth", <<bytes[p + 2]>>)
                 ELSE IF ~has(p + 3) THEN Short
                 ELSE IF bytes[p + 3] \notin Widths THEN Bad("UnsupportedInstructionWidth", <<bytes[p + 3]>>)
                 ELSE IF version = 80 /\ ~has(p + 7) THEN Short
                 ELSE IF version = 80 /\ found # expected THEN Bad("UnsupportedInstructionFormat", found)
                 ELSE IF ~has(n) THEN Short
                 ELSE IF numw \notin Widths THEN Bad("UnsupportedNumberWidth", <<numw>>)
                 ELSE IF ~has(body - 1) THEN Short
                 ELSE Good(body, [ version |-> version, sig |-> sig,
                                   format |-> [ tag |-> IF version = 81 THEN bytes[at + 1] ELSE 0, little |-> little,
                                                iw |-> bytes[p + 1], sw |-> bytes[p + 2], cw |-> bytes[p + 3], nw |-> numw,
                                                integral |-> IF version = 81 THEN bytes[n + 1] = 1 ELSE number # TestNumber(numw) ] ])

\* The header every converted chunk must start with.
OutputHeader(format, settings) ==
    settings.output.sig \o
    << 81, format.tag, IF format.little THEN 1 ELSE 0, format.iw, format.sw, format.cw, format.nw, IF format.integral THEN 1 ELSE 0 >>
=============================================================================
