----------------------------- MODULE EfaceLoop -----------------------------
(***************************************************************************)
(* Decoding into an interface which holds a pointer goes on with what it   *)
(* points to.  The interfaces which are reached without consuming any      *)
(* input form a path through a graph: next[i] is the interface which       *)
(* interface i points to, 0 when it holds something else.  Decoding must   *)
(* stop at the end of the path, or report a loop when there is none.       *)
(*                                                                         *)
(* The decoder remembers one interface, compares every one it meets with   *)
(* it, and replaces it after 1, 2, 4, ... steps (Moving).  A decoder which *)
(* only remembers the first one does not stop when the first one is not    *)
(* part of the loop (Moving = FALSE: Bounded fails).                       *)
(*                                                                         *)
(* With Emit, the shapes (n interfaces in a row, the last one pointing     *)
(* back to number b, or nowhere: b = 0) are printed for replay.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N,       \* all graphs on 1..N
          MaxN,    \* all shapes up to this length
          Moving, Emit
VARIABLES next, cur, rec, steps, limit, met, out
vars == <<next, cur, rec, steps, limit, met, out>>

Start == cur = 1 /\ rec = 0 /\ steps = 0 /\ limit = 1 /\ met = 0 /\ out = "run"
Rho(n, b) == [i \in 1..n |-> IF i < n THEN i + 1 ELSE b]
InitAll == Start /\ next \in [1..N -> 0..N]
InitRho == Start /\ \E n \in 1..MaxN : \E b \in 0..n : next = Rho(n, b)

Follow == IF next[cur] = 0 THEN out' = "end" /\ cur' = cur
          ELSE out' = "run" /\ cur' = next[cur]
Meet ==
  /\ out = "run"
  /\ met' = met + 1
  /\ UNCHANGED next
  /\ IF rec = 0 THEN rec' = cur /\ steps' = 0 /\ limit' = 1 /\ Follow
     ELSE IF cur = rec THEN out' = "loop" /\ UNCHANGED <<cur, rec, steps, limit>>
     ELSE /\ Follow
          /\ IF Moving /\ steps + 1 = limit
             THEN rec' = cur /\ steps' = 0 /\ limit' = limit * 2
             ELSE rec' = rec /\ steps' = steps + 1 /\ limit' = limit
Next == Meet
SpecAll == InitAll /\ [][Next]_vars
SpecRho == InitRho /\ [][Next]_vars

\* what the graph says
RECURSIVE After(_, _)
After(i, k) == IF k = 0 \/ i = 0 THEN i ELSE After(next[i], k - 1)
Size == Cardinality(DOMAIN next)
Ends == After(1, Size) = 0
Agrees == /\ out = "loop" => ~ Ends
          /\ out = "end" => Ends
Bounded == met <= 3 * Size + 3
Emitted == (Emit /\ out # "run") => PrintT(<<"TRACE", ToJson(<<Size, next[Size]>>)>>)
=============================================================================
