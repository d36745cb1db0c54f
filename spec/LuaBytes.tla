------------------------------ MODULE LuaBytes ------------------------------
(***************************************************************************)
(* Arithmetic on machine words for a checker whose integers have 32 bits.  *)
(* A machine word is a sequence of bytes, least significant byte first.    *)
(* Anything that may need 64 bits stays in that form; anything the byte    *)
(* code uses as a count, an index or a distance is an integer that is      *)
(* saturated at BIG, which stands for "at least BIG".                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

BIG == 2147483647

Pow2 == [n \in 0..30 |-> 2^n]

LittleFirst(bytes, little) == IF little THEN bytes ELSE Reverse(bytes)

\* Two's complement extension to eight bytes.
SignExtend(word) ==
    IF Len(word) = 8 THEN word
    ELSE word \o [i \in 1..(8 - Len(word)) |-> IF word[Len(word)] >= 128 THEN 255 ELSE 0]

ZeroExtend(word) ==
    IF Len(word) = 8 THEN word ELSE word \o [i \in 1..(8 - Len(word)) |-> 0]

IsNegative(word) == word[Len(word)] >= 128

\* The value of an eight byte two's complement word; negative values are all -1,
\* values above the integer range are BIG.
Saturate(word) ==
    IF word[8] >= 128 THEN -1
    ELSE IF word[8] + word[7] + word[6] + word[5] > 0 \/ word[4] >= 128 THEN BIG
    ELSE word[1] + 256 * word[2] + 65536 * word[3] + 16777216 * word[4]

\* Does the eight byte word fit in 32 bits (two's complement)?
FitsSigned32(word) ==
    LET fill == IF word[4] >= 128 THEN 255 ELSE 0
    IN  \A i \in 5..8 : word[i] = fill

(***************************************************************************)
(* Bit fields of a zero extended instruction word.                         *)
(***************************************************************************)
Complement(word) == [i \in 1..Len(word) |-> 255 - word[i]]

RECURSIVE FieldFrom(_, _, _, _, _)
FieldFrom(word, position, size, done, sum) ==
    \* sum holds the `done` lowest bits of the field that starts at `position`
    IF done >= size \/ position + done >= 64 THEN sum
    ELSE LET at == position + done
             byte == word[(at \div 8) + 1]
             low == at % 8
             take == LET room == 8 - low
                         left == size - done
                     IN IF room < left THEN room ELSE left
             part == (byte \div Pow2[low]) % Pow2[take]
         IN  IF part = 0 THEN FieldFrom(word, position, size, done + take, sum)
             ELSE IF done > 30 \/ (done + take > 31 /\ part >= Pow2[31 - done]) THEN BIG
             ELSE FieldFrom(word, position, size, done + take, sum + part * Pow2[done])

Field(word, position, size) == FieldFrom(word, position, size, 0, 0)

\* A field biased by 2^(size-1) - 1, as Lua stores jump distances.
SignedField(word, position, size) ==
    IF Field(word, position + size - 1, 1) = 1
    THEN LET low == Field(word, position, size - 1)
         IN  IF low = BIG THEN BIG ELSE low + 1
    ELSE -Field(Complement(word), position, size - 1)

(***************************************************************************)
(* Numbers.  A number is decoded to the canonical form                     *)
(*   <<kind, sign, exponent>> \o bits                                      *)
(* where kind is 0 for zero, 1 for a finite value, 2 for an infinity, 3    *)
(* for not-a-number, and the value of a finite number is                   *)
(* (-1)^sign * 0.b1 b2 b3 .. * 2^exponent with b1 = 1 and the last bit 1.  *)
(* Zeros keep their sign.                                                  *)
(* The four number formats of Lua are read and written in this form, so    *)
(* that "the same value" is equality.                                      *)
(***************************************************************************)
BitsOfByte(byte) == [i \in 1..8 |-> (byte \div Pow2[8 - i]) % 2]

\* most significant bit first
BitsOf(word) == FoldLeft(LAMBDA acc, byte : BitsOfByte(byte) \o acc, <<>>, word)

RECURSIVE DropZeros(_)
DropZeros(bits) == IF bits # <<>> /\ bits[Len(bits)] = 0 THEN DropZeros(SubSeq(bits, 1, Len(bits) - 1)) ELSE bits

\* position of the first one, or 0
FirstOne(bits) == LET ones == { i \in 1..Len(bits) : bits[i] = 1 }
                  IN IF ones = {} THEN 0 ELSE CHOOSE i \in ones : \A j \in ones : i <= j

\* (-1)^sign * (the binary number `bits`) * 2^(-fraction)
Normal(sign, bits, fraction) ==
    LET first == FirstOne(bits)
    IN  IF first = 0 THEN <<0, sign, 0>>
        ELSE <<1, sign, Len(bits) - first + 1 - fraction>> \o DropZeros(SubSeq(bits, first, Len(bits)))

RECURSIVE IncrementFrom(_, _)
IncrementFrom(bits, i) ==
    IF i = 0 THEN <<1>> \o bits
    ELSE IF bits[i] = 0 THEN [bits EXCEPT ![i] = 1]
    ELSE IncrementFrom([bits EXCEPT ![i] = 0], i - 1)
Increment(bits) == IncrementFrom(bits, Len(bits))

NumberOfInteger(word) ==
    LET bits == BitsOf(word)
    IN  IF bits[1] = 0 THEN Normal(0, bits, 0)
        ELSE Normal(1, Increment([i \in 1..Len(bits) |-> 1 - bits[i]]), 0)

\* precision counts the implicit leading bit
Precision(bytes) == IF bytes = 4 THEN 24 ELSE 53
ExponentBits(bytes) == IF bytes = 4 THEN 8 ELSE 11
MaxExponent(bytes) == IF bytes = 4 THEN 128 ELSE 1024
MinExponent(bytes) == IF bytes = 4 THEN -125 ELSE -1021

RECURSIVE BitsValue(_, _)
BitsValue(bits, sum) == IF bits = <<>> THEN sum ELSE BitsValue(Tail(bits), 2 * sum + Head(bits))

NumberOfFloat(word) ==
    LET bytes == Len(word)
        bits == BitsOf(word)
        ebits == ExponentBits(bytes)
        e == BitsValue(SubSeq(bits, 2, 1 + ebits), 0)
        m == SubSeq(bits, 2 + ebits, Len(bits))
        fraction == Precision(bytes) - MinExponent(bytes)
    IN  IF e = 2^ebits - 1
        THEN IF FirstOne(m) = 0 THEN <<2, bits[1], 0>> ELSE <<3, 0, 0>>
        ELSE IF e = 0 THEN Normal(bits[1], m, fraction)
        ELSE Normal(bits[1], <<1>> \o m, fraction - (e - 1))

\* The canonical number rounded (half to even) to the float format of that many bytes.
RoundToFloat(number, bytes) ==
    IF number[1] # 1 THEN number
    ELSE LET e == number[3]
             bits == SubSeq(number, 4, Len(number))
             \* bits that survive; fewer for subnormal results
             keep == LET short == MinExponent(bytes) - e
                     IN IF short > 0 THEN Precision(bytes) - short ELSE Precision(bytes)
         IN  IF Len(bits) <= keep
             THEN IF e > MaxExponent(bytes) THEN <<2, number[2], 0>> ELSE number
             ELSE IF keep < 0 THEN <<0, number[2], 0>>
             ELSE LET head == SubSeq(bits, 1, keep)
                      tie == bits[keep + 1] = 1 /\ Len(bits) = keep + 1
                      odd == keep > 0 /\ head[keep] = 1
                      up == bits[keep + 1] = 1 /\ (~tie \/ odd)
                      rounded == IF up THEN Increment(head) ELSE head
                      \* value = 0.head * 2^e, an integer `rounded` scaled by 2^(e - keep)
                      result == Normal(number[2], IF rounded = <<>> THEN <<0>> ELSE rounded, keep - e)
                  IN  IF result[1] = 1 /\ result[3] > MaxExponent(bytes) THEN <<2, number[2], 0>> ELSE result

IsWhole(number) == number[1] = 0 \/ (number[1] = 1 /\ Len(number) - 3 <= number[3])

\* A whole number that two's complement of that many bytes can hold.
FitsInteger(number, bytes) ==
    /\ IsWhole(number)
    /\ \/ number[1] = 0
       \/ number[3] <= 8 * bytes - 1
       \/ number[3] = 8 * bytes /\ number[2] = 1 /\ Len(number) = 4

\* Small whole numbers as integers, for arithmetic in the virtual machine.
IsSmall(number) == IsWhole(number) /\ (number[1] = 0 \/ number[3] <= 20)
SmallValue(number) ==
    IF number[1] = 0 THEN 0
    ELSE LET bits == SubSeq(number, 4, Len(number))
             magnitude == BitsValue(bits, 0) * 2^(number[3] - Len(bits))
         IN  IF number[2] = 1 THEN -magnitude ELSE magnitude
=============================================================================
