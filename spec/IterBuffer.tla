----------------------------- MODULE IterBuffer -----------------------------
(***************************************************************************)
(* The refill machine behind every reading operation: a window on the      *)
(* stream is filled by a reader which delivers pieces as it likes (also    *)
(* empty ones) and may fail.  Captures keep the window growing so that the *)
(* captured text stays addressable; captures nest.                         *)
(*                                                                         *)
(* Checked over all deliveries: the consumer sees exactly the stream, the  *)
(* offset always accounts for it, captured texts are exactly the consumed  *)
(* ones, and a failure is never mistaken for the end of the stream.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Len0,      \* length of the stream
          Size,      \* size of the window when not capturing
          MaxEmpty   \* bound on consecutive empty reads

Stream == [i \in 1..Len0 |-> i]    \* bytes are distinguishable

VARIABLES delivered,  \* bytes handed out by the reader
          buf,        \* window contents (bytes 1..tail)
          head,       \* bytes of the window already consumed
          offset,     \* bytes consumed before the window
          caps,       \* stack of captures: [w |-> index in the window, s |-> position in the stream]
          seen,       \* what the consumer has consumed so far
          empties, failAt, status, out

vars == <<delivered, buf, head, offset, caps, seen, empties, failAt, status, out>>

tail == Len(buf)
NoFault == Len0 + 1

Init == /\ delivered = 0 /\ buf = <<>> /\ head = 0 /\ offset = 0 /\ caps = <<>> /\ seen = <<>>
        /\ empties = 0 /\ failAt \in 0..NoFault /\ status = "run" /\ out = <<>>

\* one read call, only when the window is exhausted
Refill(n) ==
  /\ status = "run" /\ head = tail
  /\ delivered + n <= Len0 /\ delivered + n <= failAt
  /\ (n = 0 => empties < MaxEmpty)
  /\ empties' = IF n = 0 THEN empties + 1 ELSE 0
  /\ delivered' = delivered + n
  /\ LET piece == SubSeq(Stream, delivered + 1, delivered + n) IN
     IF caps # <<>>
     THEN /\ buf' = buf \o piece /\ UNCHANGED <<head, offset>>
     ELSE /\ n <= Size
          /\ buf' = piece /\ head' = 0 /\ offset' = offset + tail
  /\ UNCHANGED <<caps, seen, failAt, status, out>>

Eof == /\ status = "run" /\ head = tail /\ delivered = Len0 /\ failAt = NoFault
       /\ status' = "eof" /\ UNCHANGED <<delivered, buf, head, offset, caps, seen, empties, failAt, out>>
Fault == /\ status = "run" /\ head = tail /\ delivered = failAt
         /\ status' = "fault" /\ UNCHANGED <<delivered, buf, head, offset, caps, seen, empties, failAt, out>>

Consume == /\ status = "run" /\ head < tail
           /\ seen' = Append(seen, buf[head + 1]) /\ head' = head + 1
           /\ UNCHANGED <<delivered, buf, offset, caps, empties, failAt, status, out>>

\* a capture starts with a byte which is in the window
Begin == /\ status = "run" /\ head < tail /\ Len(caps) < 2
         /\ caps' = Append(caps, [w |-> head, s |-> Len(seen)])
         /\ UNCHANGED <<delivered, buf, head, offset, seen, empties, failAt, status, out>>
End == /\ caps # <<>>
       /\ LET c == caps[Len(caps)] IN
          /\ out' = <<[got |-> SubSeq(buf, c.w + 1, head), from |-> c.s, to |-> Len(seen)]>>
          /\ caps' = SubSeq(caps, 1, Len(caps) - 1)
       /\ UNCHANGED <<delivered, buf, head, offset, seen, empties, failAt, status>>

Next == (\E n \in 0..Len0 : Refill(n)) \/ Eof \/ Fault \/ Consume \/ Begin \/ End
Spec == Init /\ [][Next]_vars

SeesStream == seen = SubSeq(Stream, 1, Len(seen))
Accounted  == offset + head = Len(seen) /\ offset + tail = delivered
WindowIsRest == SubSeq(buf, head + 1, tail) = SubSeq(Stream, Len(seen) + 1, delivered)
CaptureExact == \A i \in 1..Len(out) : out[i].got = SubSeq(Stream, out[i].from + 1, out[i].to)
EofIsEnd   == status = "eof" => Len(seen) = Len0 /\ failAt = NoFault
FaultKept  == status = "fault" => Len(seen) = failAt
=============================================================================
