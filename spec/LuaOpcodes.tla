----------------------------- MODULE LuaOpcodes ----------------------------
(***************************************************************************)
(* The instruction sets of Lua 5.0 and Lua 5.1 (lopcodes.h), and decoding  *)
(* of instruction words under a layout.                                    *)
(*                                                                         *)
(* Operand kinds: "N" not used, "U" a plain number, "R" a register, "K" a  *)
(* register or constant, "X" an unsigned BC pair, "S" a signed BC pair,    *)
(* "I" a hint without meaning (the sizes of a new table).                  *)
(***************************************************************************)
EXTENDS LuaFormat

Opcodes50 ==
  << <<"MOVE", "R", "N">>, <<"LOADK", "X">>, <<"LOADBOOL", "U", "U">>, <<"LOADNIL", "R", "N">>, <<"GETUPVAL", "U", "N">>,
     <<"GETGLOBAL", "X">>, <<"GETTABLE", "R", "K">>, <<"SETGLOBAL", "X">>, <<"SETUPVAL", "U", "N">>, <<"SETTABLE", "K", "K">>,
     <<"NEWTABLE", "I", "I">>, <<"SELF", "R", "K">>, <<"ADD", "K", "K">>, <<"SUB", "K", "K">>, <<"MUL", "K", "K">>,
     <<"DIV", "K", "K">>, <<"POW", "K", "K">>, <<"UNM", "R", "N">>, <<"NOT", "R", "N">>, <<"CONCAT", "R", "R">>,
     <<"JMP", "S">>, <<"EQ", "K", "K">>, <<"LT", "K", "K">>, <<"LE", "K", "K">>, <<"TEST", "R", "U">>,
     <<"CALL", "U", "U">>, <<"TAILCALL", "U", "U">>, <<"RETURN", "U", "N">>, <<"FORLOOP", "S">>, <<"TFORLOOP", "N", "U">>,
     <<"TFORPREP", "S">>, <<"SETLIST", "X">>, <<"SETLISTO", "X">>, <<"CLOSE", "N", "N">>, <<"CLOSURE", "X">> >>

Opcodes51 ==
  << <<"MOVE", "R", "N">>, <<"LOADK", "X">>, <<"LOADBOOL", "U", "U">>, <<"LOADNIL", "R", "N">>, <<"GETUPVAL", "U", "N">>,
     <<"GETGLOBAL", "X">>, <<"GETTABLE", "R", "K">>, <<"SETGLOBAL", "X">>, <<"SETUPVAL", "U", "N">>, <<"SETTABLE", "K", "K">>,
     <<"NEWTABLE", "I", "I">>, <<"SELF", "R", "K">>, <<"ADD", "K", "K">>, <<"SUB", "K", "K">>, <<"MUL", "K", "K">>,
     <<"DIV", "K", "K">>, <<"MOD", "K", "K">>, <<"POW", "K", "K">>, <<"UNM", "R", "N">>, <<"NOT", "R", "N">>, <<"LEN", "R", "N">>,
     <<"CONCAT", "R", "R">>, <<"JMP", "S">>, <<"EQ", "K", "K">>, <<"LT", "K", "K">>, <<"LE", "K", "K">>, <<"TEST", "R", "U">>,
     <<"TESTSET", "R", "U">>, <<"CALL", "U", "U">>, <<"TAILCALL", "U", "U">>, <<"RETURN", "U", "N">>, <<"FORLOOP", "S">>,
     <<"FORPREP", "S">>, <<"TFORLOOP", "N", "U">>, <<"SETLIST", "U", "U">>, <<"CLOSE", "N", "N">>, <<"CLOSURE", "X">>,
     <<"VARARG", "U", "N">> >>

Opcodes(version) == IF version = 80 THEN Opcodes50 ELSE Opcodes51

(***************************************************************************)
(* A decoded instruction is [o, a, b, c, x, u]: operands not used are 0,   *)
(* and u tells whether their bits are clear, as the Lua 5.1 loader wants.  *)
(* A constant operand k of kind "K" is the negative number -(k + 1).       *)
(***************************************************************************)
IsConstant(operand) == operand < 0
ConstantIndex(operand) == -(operand + 1)

Operand(kind, value, version, dialect) ==
    CASE kind \in {"N", "I"} -> 0
      [] kind = "K" -> IF version = 80
                       THEN IF value >= dialect.limit THEN -(value - dialect.limit + 1) ELSE value
                       ELSE LET bit == 2^(dialect.lay.bs - 1)
                            IN  IF (value \div bit) % 2 = 1 THEN -(value - bit + 1) ELSE value
      [] OTHER -> value

OpcodeOf(word, dialect) == Field(word, dialect.lay.op, dialect.lay.os)

Decode(word, version, dialect) ==
    LET l == dialect.lay
        opcode == Field(word, l.op, l.os)
        info == Opcodes(version)[opcode + 1]
        a == Field(word, l.ap, l.as)
    IN  CASE info[2] = "X" -> [ o |-> info[1], a |-> a, b |-> 0, c |-> 0, x |-> Field(word, l.xp, l.xs), u |-> TRUE ]
          [] info[2] = "S" -> [ o |-> info[1], a |-> a, b |-> 0, c |-> 0, x |-> SignedField(word, l.xp, l.xs), u |-> TRUE ]
          [] OTHER -> [ o |-> info[1], a |-> a,
                        b |-> Operand(info[2], Field(word, l.bp, l.bs), version, dialect),
                        c |-> Operand(info[3], Field(word, l.cp, l.cs), version, dialect),
                        x |-> 0,
                        u |-> /\ info[2] = "N" => Field(word, l.bp, l.bs) = 0
                              /\ info[3] = "N" => Field(word, l.cp, l.cs) = 0 ]

(***************************************************************************)
(* A Lua 5.1 SETLIST whose C operand is 0 is followed by a bare word that  *)
(* holds the batch number: it is data, not an instruction.                 *)
(***************************************************************************)
RawAfter(word, version, dialect) ==
    /\ version = 81
    /\ OpcodeOf(word, dialect) = 34
    /\ Field(word, dialect.lay.cp, dialect.lay.cs) = 0

\* The positions of the words that are instructions, as a sequence of booleans.
RECURSIVE InstructionMask(_, _, _, _)
InstructionMask(words, version, dialect, mask) ==
    LET i == Len(mask) + 1
    IN  IF i > Len(words) THEN mask
        ELSE IF i > 1 /\ mask[i - 1] /\ RawAfter(words[i - 1], version, dialect)
        THEN InstructionMask(words, version, dialect, Append(mask, FALSE))
        ELSE InstructionMask(words, version, dialect, Append(mask, TRUE))

DataWord(word) == [ o |-> "DATA", a |-> 0, b |-> 0, c |-> 0, x |-> Saturate(word), u |-> TRUE ]

DecodeAll(words, version, dialect) ==
    IF version = 81 /\ \E i \in 1..Len(words) : RawAfter(words[i], version, dialect)
    THEN LET mask == InstructionMask(words, version, dialect, <<>>)
         IN  TLCEval([i \in 1..Len(words) |-> IF mask[i] THEN Decode(words[i], version, dialect) ELSE DataWord(words[i])])
    ELSE TLCEval([i \in 1..Len(words) |-> Decode(words[i], version, dialect)])
=============================================================================
