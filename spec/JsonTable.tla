----------------------------- MODULE JsonTable -----------------------------
(***************************************************************************)
(* Tabulates the transition relation of the JSON text machine, so that the *)
(* harness can run the machine of the specification itself next to the     *)
(* real code on large numbers of texts.                                    *)
(***************************************************************************)
EXTENDS JsonText, IOUtils, Json, SequencesExt, FiniteSetsExt, TLC

Ctls == SetToSeq(Ctl)
Tops == <<"E", "A", "O", "K">>
Ops  == <<"-", "P", "A", "O", "K">>
Idx(seq, x) == CHOOSE j \in 1..Len(seq) : seq[j] = x

\* a pop with nothing on the stack cannot happen: AfterValue and StartKey
\* only pop the marker they match; "elem"/"key1"/"s" with other tops are
\* unreachable and tabulated as errors
Reach(c, t) == /\ (c = "elem" => t = "A")
               /\ (c \in {"key1", "key", "colon"} => t = "O")
Entry(c, t, b) == LET r == IF Reach(c, t) THEN Step(c, t, b) ELSE Err
                  IN <<Idx(Ctls, r.c), Idx(Ops, r.op) - 1>>

Table == [ctl |-> Ctls,
          done |-> SetToSeq({"end"} \cup NumDone),
          tab |-> [c \in 1..Len(Ctls) |-> [t \in 1..4 |-> [b \in 1..256 |-> Entry(Ctls[c], Tops[t], b - 1)]]]]

VARIABLE done
Init == done = JsonSerialize(IOEnv.TABLE_FILE, <<Table>>)
Next == UNCHANGED done
=============================================================================
