----------------------------- MODULE MC_Encoder -----------------------------
(* The stream encoder over a faulty writer: every Encode writes the text    *)
(* and then the line feed; the first failure ends the stream.               *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxEnc, Emit
VARIABLES ops, sink, want, failed
vars == <<ops, sink, want, failed>>

Text(k) == <<k, k + 100>>          \* the text of the k-th value
Out == {"ok", "e0", "e1", "eA", "S"}    \* accepted: all; nothing, a part or all, with an error; a part and no error
Took(o, t) == CASE o \in {"ok", "eA"} -> t [] o = "e0" -> <<>> [] OTHER -> SubSeq(t, 1, Len(t) - 1)

Init == ops = <<>> /\ sink = <<>> /\ want = <<>> /\ failed = FALSE

Good(o1, o2) ==
  LET t == Text(Len(ops) + 1) IN
  /\ want' = want \o t \o <<10>>
  /\ failed' = (o1 # "ok" \/ o2 # "ok")
  /\ sink' = sink \o Took(o1, t) \o (IF o1 = "ok" THEN Took(o2, <<10>>) ELSE <<>>)
Encode(v, o1, o2) ==
  /\ Len(ops) < MaxEnc
  /\ ops' = Append(ops, <<v, o1, o2>>)
  /\ IF failed THEN UNCHANGED <<sink, want, failed>>
     ELSE IF v = "bad" THEN failed' = TRUE /\ UNCHANGED <<sink, want>>
     ELSE Good(o1, o2)

\* the second outcome is that of the line feed, which is not tried after a failure
Next == \E o1, o2 \in Out :
  /\ o1 # "ok" => o2 = "ok"
  /\ Encode("good", o1, o2) \/ (o1 = "ok" /\ o2 = "ok" /\ Encode("bad", o1, o2))
Spec == Init /\ [][Next]_vars

IsPre(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Prefix == IsPre(sink, want) /\ (~ failed => sink = want)
Sticky == [][failed => sink' = sink /\ failed']_vars
Emitted == (Emit /\ Len(ops) = MaxEnc) => PrintT(<<"TRACE", ToJson(ops)>>)
=============================================================================
