------------------------------- MODULE Base64 -------------------------------
(* Standard base64 (RFC 4648, padded), CR and LF ignored when decoding.    *)
EXTENDS Bytes
B64Val(c) ==
  CASE c >= 65 /\ c <= 90  -> c - 65
    [] c >= 97 /\ c <= 122 -> c - 71
    [] c >= 48 /\ c <= 57  -> c + 4
    [] c = 43 -> 62
    [] c = 47 -> 63
    [] OTHER -> 64
B64Char(v) == IF v < 26 THEN v + 65 ELSE IF v < 52 THEN v + 71 ELSE IF v < 62 THEN v - 4
              ELSE IF v = 62 THEN 43 ELSE 47
RECURSIVE B64Groups(_, _, _)
B64Groups(s, i, acc) ==
  IF i > Len(s) THEN [ok |-> TRUE, s |-> acc]
  ELSE IF i + 3 > Len(s) THEN [ok |-> FALSE]
  ELSE LET a == B64Val(s[i]) b == B64Val(s[i + 1]) c == B64Val(s[i + 2]) d == B64Val(s[i + 3])
           last == i + 3 = Len(s)
           b1 == a * 4 + b \div 16
           b2 == (b % 16) * 16 + c \div 4
           b3 == (c % 4) * 64 + d
       IN IF a = 64 \/ b = 64 THEN [ok |-> FALSE]
          ELSE IF last /\ s[i + 2] = 61 /\ s[i + 3] = 61 THEN [ok |-> TRUE, s |-> Append(acc, b1)]
          ELSE IF c = 64 THEN [ok |-> FALSE]
          ELSE IF last /\ s[i + 3] = 61 THEN [ok |-> TRUE, s |-> acc \o <<b1, (b % 16) * 16 + c \div 4>>]
          ELSE IF d = 64 THEN [ok |-> FALSE]
          ELSE B64Groups(s, i + 4, acc \o <<b1, b2, b3>>)
B64Decode(s) == B64Groups(SelectSeq(s, LAMBDA c : c # 10 /\ c # 13), 1, <<>>)
RECURSIVE B64EncodeFrom(_, _)
B64EncodeFrom(s, i) ==
  LET n == Len(s) - i + 1 IN
  IF n <= 0 THEN <<>>
  ELSE IF n = 1 THEN <<B64Char(s[i] \div 4), B64Char((s[i] % 4) * 16), 61, 61>>
  ELSE IF n = 2 THEN <<B64Char(s[i] \div 4), B64Char((s[i] % 4) * 16 + s[i + 1] \div 16),
                       B64Char((s[i + 1] % 16) * 4), 61>>
  ELSE <<B64Char(s[i] \div 4), B64Char((s[i] % 4) * 16 + s[i + 1] \div 16),
         B64Char((s[i + 1] % 16) * 4 + s[i + 2] \div 64), B64Char(s[i + 2] % 64)>>
       \o B64EncodeFrom(s, i + 3)
B64Encode(s) == B64EncodeFrom(s, 1)
=============================================================================
