------------------------------ MODULE IntText ------------------------------
(* Integers as decimal texts (TLC's own integers are 32 bits wide).        *)
EXTENDS Bytes

\* is the text t a JSON integer: -? ( 0 | [1-9][0-9]* )
IsIntText(t) ==
  /\ t # <<>>
  /\ LET d == IF t[1] = cMINUS THEN Tail(t) ELSE t IN
     /\ d # <<>> /\ \A i \in 1..Len(d) : IsDigit(d[i])
     /\ (d[1] = cZERO => Len(d) = 1)

D(n) == [i \in 1..Len(n) |-> n[i] + 48]
MaxU(w) == CASE w = 8  -> D(<<2,5,5>>)
             [] w = 16 -> D(<<6,5,5,3,5>>)
             [] w = 32 -> D(<<4,2,9,4,9,6,7,2,9,5>>)
             [] OTHER  -> D(<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>)
MaxI(w) == CASE w = 8  -> D(<<1,2,7>>)
             [] w = 16 -> D(<<3,2,7,6,7>>)
             [] w = 32 -> D(<<2,1,4,7,4,8,3,6,4,7>>)
             [] OTHER  -> D(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>)
MinI(w) == CASE w = 8  -> D(<<1,2,8>>)      \* magnitude
             [] w = 16 -> D(<<3,2,7,6,8>>)
             [] w = 32 -> D(<<2,1,4,7,4,8,3,6,4,8>>)
             [] OTHER  -> D(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>)

\* magnitudes without leading zeros
MagLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ (a = b \/ BLess(a, b)))

\* the integer text t denotes a value of the type (width w, signed sg)
InRange(t, w, sg) ==
  IF t[1] = cMINUS
  THEN sg /\ MagLeq(Tail(t), MinI(w))
  ELSE MagLeq(t, IF sg THEN MaxI(w) ELSE MaxU(w))

\* canonical text of the value denoted by t
Canon(t) == IF t = <<45, 48>> THEN <<48>> ELSE t
=============================================================================
