------------------------------ MODULE EfacePos ------------------------------
(***************************************************************************)
(* A loop of interfaces is only reported when the same interface is met    *)
(* twice at the same place of the text (EfaceLoop).  Here: how the place   *)
(* is known while a reader delivers the text in pieces.                    *)
(*                                                                         *)
(* The text is  d w d w ... d  (digits and white space, Vals digits).      *)
(* Every digit is decoded into one of the Vars interface variables, which  *)
(* hold no pointers, or captured as a raw message (0).  The buffer holds   *)
(* the bytes base+1 .. base+tail of the text, head of them consumed.  A    *)
(* refill drops what is consumed (base grows), but keeps it while          *)
(* capturing.  The decoder remembers the last variable with its place.     *)
(*                                                                         *)
(* There is no loop in any of these histories: NoLoop.  It fails when the  *)
(* place is the index in the buffer only (Absolute = FALSE), and when a    *)
(* refill forgets the bytes before (Counting = FALSE).                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Vals, Vars, MaxPiece, Absolute, Counting, Emit
VARIABLES base, head, tail, capture, rec, recAt, pc, ops, pieces, out
vars == <<base, head, tail, capture, rec, recAt, pc, ops, pieces, out>>

Len0 == 2 * Vals - 1
Min(a, b) == IF a < b THEN a ELSE b
Delivered == LET RECURSIVE S(_)
                 S(i) == IF i = 0 THEN 0 ELSE pieces[i] + S(i - 1)
             IN S(Len(pieces))
Place == IF Absolute THEN base + head ELSE head
Init == /\ base = 0 /\ head = 0 /\ tail = 0 /\ capture = FALSE /\ rec = 0 /\ recAt = 0
        /\ pc = "enter" /\ ops = <<>> /\ pieces = <<>> /\ out = "run"

\* the decoder is called for the next digit
Enter(v) ==
  /\ pc = "enter" /\ out = "run" /\ Len(ops) < Vals
  /\ ops' = Append(ops, v)
  /\ pc' = "digit"
  /\ IF v = 0 THEN UNCHANGED <<rec, recAt, out>>
     ELSE IF rec = v /\ recAt = Place THEN out' = "loop" /\ UNCHANGED <<rec, recAt>>
     ELSE rec' = v /\ recAt' = Place /\ out' = "run"
  /\ UNCHANGED <<base, head, tail, capture, pieces>>
Refill ==
  /\ out = "run" /\ pc \in {"digit", "look"} /\ head = tail /\ Delivered < Len0
  /\ \E n \in 1..Min(MaxPiece, Len0 - Delivered) :
       /\ pieces' = Append(pieces, n)
       /\ IF capture THEN tail' = tail + n /\ UNCHANGED <<base, head>>
          ELSE /\ base' = IF Counting THEN base + tail ELSE base
               /\ head' = 0 /\ tail' = n
  /\ UNCHANGED <<capture, rec, recAt, pc, ops, out>>
\* white space is consumed first; the digit is in the buffer when the capture starts
IsDigit == (Delivered - (tail - head)) % 2 = 0
Consume ==
  /\ out = "run" /\ pc = "digit" /\ head < tail
  /\ head' = head + 1
  /\ IF IsDigit THEN pc' = "look" /\ capture' = (ops[Len(ops)] = 0) ELSE UNCHANGED <<pc, capture>>
  /\ UNCHANGED <<base, tail, rec, recAt, ops, pieces, out>>
\* the byte after the digit is looked at
Look ==
  /\ out = "run" /\ pc = "look" /\ (head < tail \/ Delivered = Len0)
  /\ capture' = FALSE
  /\ pc' = "enter"
  /\ out' = IF Len(ops) = Vals THEN "end" ELSE "run"
  /\ UNCHANGED <<base, head, tail, rec, recAt, ops, pieces>>
Next == (\E v \in 0..Vars : Enter(v)) \/ Refill \/ Consume \/ Look
Spec == Init /\ [][Next]_vars

NoLoop == out # "loop"
\* the place is the one of the text
TruePlace == (Absolute /\ Counting) => base + head = Delivered - (tail - head)
Emitted == (Emit /\ out = "end") => PrintT(<<"TRACE", ToJson(<<ops, pieces>>)>>)
=============================================================================
