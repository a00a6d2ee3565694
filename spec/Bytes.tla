------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Text is represented as a sequence of byte values 0..255.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Byte == 0..255

\* A few named bytes
cTAB == 9     cLF == 10     cCR == 13    cSP == 32
cQUOTE == 34  cPLUS == 43   cCOMMA == 44 cMINUS == 45 cDOT == 46
cSLASH == 47  cZERO == 48   cNINE == 57  cCOLON == 58
cLBRK == 91   cBSL == 92    cRBRK == 93  cLBRC == 123 cRBRC == 125

IsWS(b)    == b = 32 \/ b = 9 \/ b = 10 \/ b = 13
IsDigit(b) == b >= 48 /\ b <= 57
IsDigit19(b) == b >= 49 /\ b <= 57
IsHex(b)   == (b >= 48 /\ b <= 57) \/ (b >= 97 /\ b <= 102) \/ (b >= 65 /\ b <= 70)
HexVal(b)  == IF b <= 57 THEN b - 48 ELSE IF b >= 97 THEN b - 87 ELSE b - 55

sTRUE  == <<116, 114, 117, 101>>
sFALSE == <<102, 97, 108, 115, 101>>
sNULL  == <<110, 117, 108, 108>>

\* text s contains w starting at position i
At(s, i, w) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w

\* strictly-before order on byte strings (lexicographic)
RECURSIVE BLessFrom(_, _, _)
BLessFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE BLessFrom(a, b, i + 1)
BLess(a, b) == BLessFrom(a, b, 1)

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
=============================================================================
