----------------------------- MODULE JsonParse -----------------------------
(***************************************************************************)
(* Denotation of JSON texts: the value tree of a text, with the extent     *)
(* (first and last byte) of every value, and strings decoded to bytes.     *)
(*                                                                         *)
(* Nodes (b, e = extent):                                                  *)
(*   [k |-> "null"|"true"|"false"]                                         *)
(*   [k |-> "num", t |-> bytes of the number text]                         *)
(*   [k |-> "str", s |-> decoded bytes]                                    *)
(*   [k |-> "arr", l |-> sequence of nodes]                                *)
(*   [k |-> "obj", m |-> sequence of [n |-> key bytes, v |-> node,         *)
(*               kb, kl |-> begin and length of the quoted key]]           *)
(* Parse(s) = [ok |-> FALSE] or [ok |-> TRUE, v |-> node].                 *)
(***************************************************************************)
EXTENDS JsonText, TLC

RECURSIVE SkipWS(_, _)
SkipWS(s, i) == IF i <= Len(s) /\ IsWS(s[i]) THEN SkipWS(s, i + 1) ELSE i

------------------------------------------------------------------------------
(* UTF-8 *)
Utf8(r) ==
  IF r < 128 THEN <<r>>
  ELSE IF r < 2048 THEN <<192 + (r \div 64), 128 + (r % 64)>>
  ELSE IF r < 65536 THEN <<224 + (r \div 4096), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
  ELSE <<240 + (r \div 262144), 128 + ((r \div 4096) % 64), 128 + ((r \div 64) % 64), 128 + (r % 64)>>

ReplacementChar == <<239, 191, 189>>  \* U+FFFD

IsHighSur(u) == u >= 55296 /\ u <= 56319
IsLowSur(u)  == u >= 56320 /\ u <= 57343

U4(s, i) == ((HexVal(s[i]) * 16 + HexVal(s[i + 1])) * 16 + HexVal(s[i + 2])) * 16 + HexVal(s[i + 3])
HasU4(s, i) == i + 5 <= Len(s) /\ s[i] = cBSL /\ s[i + 1] = 117
               /\ IsHex(s[i + 2]) /\ IsHex(s[i + 3]) /\ IsHex(s[i + 4]) /\ IsHex(s[i + 5])

SimpleEsc(b) == CASE b = 98 -> 8 [] b = 102 -> 12 [] b = 110 -> 10 [] b = 114 -> 13 [] b = 116 -> 9 [] OTHER -> b

\* first position >= i holding a byte which needs attention inside a string
RECURSIVE PlainEnd(_, _)
PlainEnd(s, i) ==
  IF i > Len(s) THEN i
  ELSE IF s[i] = cQUOTE \/ s[i] = cBSL \/ s[i] < 32 THEN i
  ELSE PlainEnd(s, i + 1)

\* body of a string from position i (after the opening quote)
\* yields [ok, s (decoded), nx (after the closing quote)]
RECURSIVE StrBody(_, _, _)
StrBody(s, i, acc) ==
  LET p == PlainEnd(s, i)
      a == IF p = i THEN acc ELSE acc \o SubSeq(s, i, p - 1)
  IN IF p > Len(s) THEN [ok |-> FALSE]
     ELSE IF s[p] = cQUOTE THEN [ok |-> TRUE, s |-> a, nx |-> p + 1]
     ELSE IF s[p] < 32 \/ p + 1 > Len(s) THEN [ok |-> FALSE]
     ELSE IF IsSimpleEsc(s[p + 1]) THEN StrBody(s, p + 2, Append(a, SimpleEsc(s[p + 1])))
     ELSE IF ~ HasU4(s, p) THEN [ok |-> FALSE]
     ELSE LET u == U4(s, p + 2) IN
          IF IsHighSur(u) /\ HasU4(s, p + 6) /\ IsLowSur(U4(s, p + 8))
          THEN StrBody(s, p + 12,
                 a \o Utf8(65536 + (u - 55296) * 1024 + (U4(s, p + 8) - 56320)))
          ELSE IF IsHighSur(u) \/ IsLowSur(u)
          THEN StrBody(s, p + 6, a \o ReplacementChar)   \* lone surrogate
          ELSE StrBody(s, p + 6, a \o Utf8(u))

------------------------------------------------------------------------------
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitsEnd(s, i + 1) ELSE i

\* position after the longest number starting at i, or 0
NumEnd(s, i) ==
  LET b  == IF s[i] = cMINUS THEN i + 1 ELSE i IN
  IF b > Len(s) \/ ~ IsDigit(s[b]) THEN 0
  ELSE LET n1 == IF s[b] = cZERO THEN b + 1 ELSE DigitsEnd(s, b)
           hasF == n1 <= Len(s) /\ s[n1] = cDOT
           n2 == IF hasF THEN DigitsEnd(s, n1 + 1) ELSE n1
       IN IF hasF /\ n2 = n1 + 1 THEN 0
          ELSE LET hasE == n2 <= Len(s) /\ s[n2] \in {101, 69}
                   d == IF hasE /\ n2 + 1 <= Len(s) /\ s[n2 + 1] \in {43, 45} THEN n2 + 2 ELSE n2 + 1
                   n3 == IF hasE THEN DigitsEnd(s, d) ELSE n2
               IN IF hasE /\ n3 = d THEN 0 ELSE n3

Fail == [ok |-> FALSE]
Node(v, nx) == [ok |-> TRUE, v |-> v, nx |-> nx]

RECURSIVE PVal(_, _), PElems(_, _, _, _), PMembers(_, _, _, _)
\* a value starting exactly at i
PVal(s, i) ==
  IF i > Len(s) THEN Fail
  ELSE CASE s[i] = cQUOTE ->
              LET r == StrBody(s, i + 1, <<>>) IN
              IF r.ok THEN Node([k |-> "str", s |-> r.s, b |-> i, e |-> r.nx - 1], r.nx) ELSE Fail
         [] s[i] = cLBRK ->
              LET j == SkipWS(s, i + 1) IN
              IF j <= Len(s) /\ s[j] = cRBRK
              THEN Node([k |-> "arr", l |-> <<>>, b |-> i, e |-> j], j + 1)
              ELSE PElems(s, j, <<>>, i)
         [] s[i] = cLBRC ->
              LET j == SkipWS(s, i + 1) IN
              IF j <= Len(s) /\ s[j] = cRBRC
              THEN Node([k |-> "obj", m |-> <<>>, b |-> i, e |-> j], j + 1)
              ELSE PMembers(s, j, <<>>, i)
         [] s[i] = 116 -> IF At(s, i, sTRUE)  THEN Node([k |-> "true", b |-> i, e |-> i + 3], i + 4)  ELSE Fail
         [] s[i] = 102 -> IF At(s, i, sFALSE) THEN Node([k |-> "false", b |-> i, e |-> i + 4], i + 5) ELSE Fail
         [] s[i] = 110 -> IF At(s, i, sNULL)  THEN Node([k |-> "null", b |-> i, e |-> i + 3], i + 4)  ELSE Fail
         [] OTHER ->
              LET n == IF s[i] = cMINUS \/ IsDigit(s[i]) THEN NumEnd(s, i) ELSE 0 IN
              IF n = 0 THEN Fail
              ELSE Node([k |-> "num", t |-> SubSeq(s, i, n - 1), b |-> i, e |-> n - 1], n)

PElems(s, i, acc, b) ==
  LET r == PVal(s, i) IN
  IF ~ r.ok THEN Fail
  ELSE LET j == SkipWS(s, r.nx)
           a == Append(acc, r.v)
       IN IF j > Len(s) THEN Fail
          ELSE IF s[j] = cRBRK THEN Node([k |-> "arr", l |-> a, b |-> b, e |-> j], j + 1)
          ELSE IF s[j] = cCOMMA THEN PElems(s, SkipWS(s, j + 1), a, b)
          ELSE Fail

PMembers(s, i, acc, b) ==
  IF i > Len(s) \/ s[i] # cQUOTE THEN Fail
  ELSE LET kr == StrBody(s, i + 1, <<>>) IN
  IF ~ kr.ok THEN Fail
  ELSE LET c == SkipWS(s, kr.nx) IN
  IF c > Len(s) \/ s[c] # cCOLON THEN Fail
  ELSE LET r == PVal(s, SkipWS(s, c + 1)) IN
  IF ~ r.ok THEN Fail
  ELSE LET j == SkipWS(s, r.nx)
           a == Append(acc, [n |-> kr.s, v |-> r.v, kl |-> kr.nx - i, kb |-> i])
       IN IF j > Len(s) THEN Fail
          ELSE IF s[j] = cRBRC THEN Node([k |-> "obj", m |-> a, b |-> b, e |-> j], j + 1)
          ELSE IF s[j] = cCOMMA THEN PMembers(s, SkipWS(s, j + 1), a, b)
          ELSE Fail

\* a whole document
Parse(s) ==
  LET r == PVal(s, SkipWS(s, 1)) IN
  IF r.ok /\ SkipWS(s, r.nx) > Len(s) THEN [ok |-> TRUE, v |-> r.v] ELSE Fail

Raw(s, node) == SubSeq(s, node.b, node.e)
=============================================================================
