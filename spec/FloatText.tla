----------------------------- MODULE FloatText -----------------------------
(***************************************************************************)
(* Reading numbers as binary floating point, by exact decimal comparison.  *)
(* A float f is characterised by its rounding interval: the exact decimal  *)
(* expansions of the midpoints lo and hi between |f| and its neighbours    *)
(* (given with the record; computed from the bits of f alone), and whether *)
(* its significand is even.  A text denotes f iff its value lies in that   *)
(* interval, the ends included iff f is even; it is out of range iff it    *)
(* is not less than the midpoint between the greatest float and the power  *)
(* of two after it.                                                        *)
(***************************************************************************)
EXTENDS Bytes, Integers

RECURSIVE DigitsTo(_, _)
DigitsTo(t, i) ==   \* the last position of the digits starting at i (i - 1: none)
  IF i <= Len(t) /\ IsDigit(t[i]) THEN DigitsTo(t, i + 1) ELSE i - 1

\* the number at the start of t: where its parts end; ok iff t is a JSON number
NumParts(t) ==
  LET i0 == IF t # <<>> /\ t[1] = 45 THEN 2 ELSE 1
      i1 == DigitsTo(t, i0)
      intok == i1 >= i0 /\ (t[i0] = 48 => i1 = i0)
      hasf == i1 < Len(t) /\ t[i1 + 1] = 46
      f1 == IF hasf THEN DigitsTo(t, i1 + 2) ELSE i1
      fok == hasf => f1 >= i1 + 2
      hase == f1 < Len(t) /\ t[f1 + 1] \in {69, 101}
      sgn == hase /\ f1 + 1 < Len(t) /\ t[f1 + 2] \in {43, 45}
      e0 == f1 + 2 + (IF sgn THEN 1 ELSE 0)
      e1 == IF hase THEN DigitsTo(t, e0) ELSE f1
      eok == hase => e1 >= e0
  IN [ok |-> intok /\ fok /\ eok /\ e1 = Len(t),
      neg |-> i0 = 2,
      int |-> SubSeq(t, i0, i1),
      frac |-> IF hasf THEN SubSeq(t, i1 + 2, f1) ELSE <<>>,
      eneg |-> sgn /\ t[f1 + 2] = 45,
      exp |-> IF hase THEN SubSeq(t, e0, e1) ELSE <<>>]

\* exponents beyond this never matter for the texts at hand
BigExp == 100000000
RECURSIVE NatOf(_, _, _)
NatOf(d, i, acc) == IF i > Len(d) THEN acc
                    ELSE IF acc >= 10000000 THEN BigExp
                    ELSE NatOf(d, i + 1, acc * 10 + (d[i] - 48))

\* a magnitude: 0.d1 d2 d3 ... x 10^e, with d1 # 0 (no digits: zero)
RECURSIVE NonZeroFrom(_, _)
NonZeroFrom(d, i) == IF i <= Len(d) /\ d[i] = 48 THEN NonZeroFrom(d, i + 1) ELSE i
RECURSIVE NonZeroTo(_, _)
NonZeroTo(d, i) == IF i >= 1 /\ d[i] = 48 THEN NonZeroTo(d, i - 1) ELSE i
FirstNonZero(d) == NonZeroFrom(d, 1)
LastNonZero(d) == NonZeroTo(d, Len(d))
Mag(d, e) == LET f == FirstNonZero(d) IN
  IF f > Len(d) THEN [d |-> <<>>, e |-> 0]
  ELSE [d |-> SubSeq(d, f, LastNonZero(d)), e |-> e - (f - 1)]

MagOf(p) == Mag(p.int \o p.frac, Len(p.int) + (IF p.eneg THEN - NatOf(p.exp, 1, 0) ELSE NatOf(p.exp, 1, 0)))

MagLess(a, b) ==
  IF b.d = <<>> THEN FALSE
  ELSE IF a.d = <<>> THEN TRUE
  ELSE IF a.e # b.e THEN a.e < b.e
  ELSE BLess(a.d, b.d)      \* a proper prefix is less: no trailing zeros

D48(n) == [i \in 1..Len(n) |-> n[i] + 48]
Over64 == [e |-> 309, d |-> D48(
    <<1,7,9,7,6,9,3,1,3,4,8,6,2,3,1,5,8,0,7,9,3,7,2,8,9,7,1,4,0,
    5,3,0,3,4,1,5,0,7,9,9,3,4,1,3,2,7,1,0,0,3,7,8,2,6,9,3,6,1,7,
    3,7,7,8,9,8,0,4,4,4,9,6,8,2,9,2,7,6,4,7,5,0,9,4,6,6,4,9,0,1,
    7,9,7,7,5,8,7,2,0,7,0,9,6,3,3,0,2,8,6,4,1,6,6,9,2,8,8,7,9,1,
    0,9,4,6,5,5,5,5,4,7,8,5,1,9,4,0,4,0,2,6,3,0,6,5,7,4,8,8,6,7,
    1,5,0,5,8,2,0,6,8,1,9,0,8,9,0,2,0,0,0,7,0,8,3,8,3,6,7,6,2,7,
    3,8,5,4,8,4,5,8,1,7,7,1,1,5,3,1,7,6,4,4,7,5,7,3,0,2,7,0,0,6,
    9,8,5,5,5,7,1,3,6,6,9,5,9,6,2,2,8,4,2,9,1,4,8,1,9,8,6,0,8,3,
    4,9,3,6,4,7,5,2,9,2,7,1,9,0,7,4,1,6,8,4,4,4,3,6,5,5,1,0,7,0,
    4,3,4,2,7,1,1,5,5,9,6,9,9,5,0,8,0,9,3,0,4,2,8,8,0,1,7,7,9,0,
    4,1,7,4,4,9,7,7,9,2>>)]
Over32 == [e |-> 39, d |-> D48(
    <<3,4,0,2,8,2,3,5,6,7,7,9,7,3,3,6,6,1,6,3,7,5,3,9,3,9,5,4,5,
    8,1,4,2,5,6,8,4,4,8>>)]
Over(w) == IF w = 32 THEN Over32 ELSE Over64

\* an item: text t read as a float of w bits gave out; the result is
\* described by its sign and rounding interval
FloatItemOK(w, it) ==
  LET p == NumParts(it.t) IN
  IF ~ p.ok \/ ~ MagLess(MagOf(p), Over(w)) THEN it.out = "err"
  ELSE LET m == MagOf(p)
           lo == Mag(it.lo, Len(it.lo) + it.loe)
           hi == Mag(it.hi, Len(it.hi) + it.hie)
       IN /\ it.out = "ok"
          /\ it.neg = p.neg
          /\ it.zero \/ MagLess(lo, m) \/ (it.even /\ m = lo)
          /\ MagLess(m, hi) \/ (it.even /\ m = hi)
\* a number kept as text
NumKeptOK(it) == IF NumParts(it.t).ok THEN it.out = "ok" /\ it.y = it.t ELSE it.out = "err"
=============================================================================
