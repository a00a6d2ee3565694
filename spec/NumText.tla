------------------------------ MODULE NumText ------------------------------
(***************************************************************************)
(* The text of numbers.  A finite float is given by its sign and its       *)
(* shortest decimal digits d1 d2 ... (the environment computes them), and  *)
(* the exponent ex of d1.d2... x 10^ex.                                    *)
(***************************************************************************)
EXTENDS Bytes, Integers

Zeros(n) == [i \in 1..n |-> cZERO]

RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NatText(n \div 10), 48 + (n % 10))

PlainText(digs, ex) ==
  IF ex < 0 THEN <<48, 46>> \o Zeros(-ex - 1) \o digs
  ELSE IF Len(digs) <= ex + 1 THEN digs \o Zeros(ex + 1 - Len(digs))
  ELSE SubSeq(digs, 1, ex + 1) \o <<46>> \o SubSeq(digs, ex + 2, Len(digs))

ExpText(digs, ex) ==
  << digs[1] >> \o (IF Len(digs) > 1 THEN <<46>> \o Tail(digs) ELSE <<>>)
  \o <<101>> \o (IF ex < 0 THEN <<45>> \o NatText(-ex) ELSE <<43>> \o NatText(ex))

\* plain from 1e-6 up to 1e21
FloatText(neg, digs, ex) ==
  (IF neg THEN <<45>> ELSE <<>>)
  \o (IF ex >= -6 /\ ex <= 20 THEN PlainText(digs, ex) ELSE ExpText(digs, ex))
=============================================================================
