----------------------------- MODULE CodecCache -----------------------------
(***************************************************************************)
(* The cache of codecs of a configuration, used by several threads at once.*)
(*                                                                         *)
(* A codec of a type is an object; it is usable when it and all codecs it  *)
(* refers to (the types it is composed of) are filled in.  The published   *)
(* map is replaced as a whole (atomic store); building happens under a     *)
(* mutex, in steps: the types reachable from the wanted one are collected  *)
(* into a private copy of the map, then the objects are filled in, then    *)
(* the copy is published.                                                  *)
(*                                                                         *)
(* Early = TRUE publishes before filling in, Unlocked = TRUE builds        *)
(* without the mutex, InPlace = TRUE adds to the published map itself: all *)
(* three must violate the invariants (the model is not vacuous).           *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS Threads, Types, Uses, Early, Unlocked, InPlace

\* which types a type is composed of: mutually recursive, with a shared leaf
Deps(t) == CASE t = 1 -> {2, 3}
             [] t = 2 -> {1}
             [] t = 3 -> {}
             [] OTHER -> {1, 3}

VARIABLES published,  \* type -> object (0: none)
          filled,     \* objects which are filled in
          objs,       \* number of objects made
          lock,       \* thread holding the mutex, or 0
          pc, want, left, copy, todo, fill, got,
          writing     \* the published map is being written to by a thread
vars == <<published, filled, objs, lock, pc, want, left, copy, todo, fill, got, writing>>

None == [t \in Types |-> 0]

Init ==
  /\ published = None /\ filled = {} /\ objs = 0 /\ lock = 0 /\ writing = 0
  /\ pc = [p \in Threads |-> "idle"]
  /\ want = [p \in Threads |-> 0]
  /\ left = [p \in Threads |-> Uses]
  /\ copy = [p \in Threads |-> None]
  /\ todo = [p \in Threads |-> {}]
  /\ fill = [p \in Threads |-> {}]
  /\ got = [p \in Threads |-> 0]

Keep(s) == UNCHANGED s

Begin(p) ==
  /\ pc[p] = "idle" /\ left[p] > 0
  /\ \E t \in Types : want' = [want EXCEPT ![p] = t]
  /\ left' = [left EXCEPT ![p] = @ - 1]
  /\ pc' = [pc EXCEPT ![p] = "lookup"]
  /\ UNCHANGED <<published, filled, objs, lock, copy, todo, fill, got, writing>>

Lookup(p) ==
  /\ pc[p] = "lookup"
  /\ IF published[want[p]] # 0
     THEN got' = [got EXCEPT ![p] = published[want[p]]] /\ pc' = [pc EXCEPT ![p] = "use"]
     ELSE got' = got /\ pc' = [pc EXCEPT ![p] = "lock"]
  /\ UNCHANGED <<published, filled, objs, lock, want, left, copy, todo, fill, writing>>

Lock(p) ==
  /\ pc[p] = "lock" /\ (Unlocked \/ lock = 0)
  /\ lock' = p
  /\ pc' = [pc EXCEPT ![p] = "recheck"]
  /\ UNCHANGED <<published, filled, objs, want, left, copy, todo, fill, got, writing>>

Recheck(p) ==
  /\ pc[p] = "recheck"
  /\ IF published[want[p]] # 0
     THEN /\ got' = [got EXCEPT ![p] = published[want[p]]]
          /\ pc' = [pc EXCEPT ![p] = "unlock"]
          /\ UNCHANGED <<copy, todo, fill>>
     ELSE /\ copy' = [copy EXCEPT ![p] = published]
          /\ todo' = [todo EXCEPT ![p] = {want[p]}]
          /\ fill' = [fill EXCEPT ![p] = {}]
          /\ pc' = [pc EXCEPT ![p] = "collect"]
          /\ got' = got
  /\ UNCHANGED <<published, filled, objs, lock, want, left, writing>>

\* make an object for one of the types to do
Collect(p) ==
  /\ pc[p] = "collect" /\ todo[p] # {}
  /\ \E t \in todo[p] :
       IF copy[p][t] # 0
       THEN todo' = [todo EXCEPT ![p] = @ \ {t}] /\ UNCHANGED <<copy, fill, objs, published, writing>>
       ELSE /\ objs' = objs + 1
            /\ copy' = [copy EXCEPT ![p][t] = objs + 1]
            /\ fill' = [fill EXCEPT ![p] = @ \cup {objs + 1}]
            /\ todo' = [todo EXCEPT ![p] = (@ \ {t}) \cup Deps(t)]
            /\ IF InPlace THEN published' = [published EXCEPT ![t] = objs + 1] /\ writing' = p
               ELSE published' = published /\ writing' = writing
  /\ UNCHANGED <<filled, lock, pc, want, left, got>>

Collected(p) ==
  /\ pc[p] = "collect" /\ todo[p] = {}
  /\ pc' = [pc EXCEPT ![p] = IF Early THEN "store" ELSE "fill"]
  /\ UNCHANGED <<published, filled, objs, lock, want, left, copy, todo, fill, got, writing>>

Fill(p) ==
  /\ pc[p] = "fill"
  /\ IF fill[p] = {}
     THEN pc' = [pc EXCEPT ![p] = IF Early THEN "unlock" ELSE "store"] /\ UNCHANGED <<filled, fill>>
     ELSE \E o \in fill[p] :
            /\ filled' = filled \cup {o}
            /\ fill' = [fill EXCEPT ![p] = @ \ {o}]
            /\ pc' = pc
  /\ UNCHANGED <<published, objs, lock, want, left, copy, todo, got, writing>>

Store(p) ==
  /\ pc[p] = "store"
  /\ published' = copy[p]
  /\ writing' = 0
  /\ got' = [got EXCEPT ![p] = copy[p][want[p]]]
  /\ pc' = [pc EXCEPT ![p] = IF Early THEN "fill" ELSE "unlock"]
  /\ UNCHANGED <<filled, objs, lock, want, left, copy, todo, fill>>

Unlock(p) ==
  /\ pc[p] = "unlock"
  /\ lock' = 0
  /\ pc' = [pc EXCEPT ![p] = "use"]
  /\ UNCHANGED <<published, filled, objs, want, left, copy, todo, fill, got, writing>>

Use(p) ==
  /\ pc[p] = "use"
  /\ pc' = [pc EXCEPT ![p] = "idle"]
  /\ got' = [got EXCEPT ![p] = 0]
  /\ UNCHANGED <<published, filled, objs, lock, want, left, copy, todo, fill, writing>>

Step(p) == Begin(p) \/ Lookup(p) \/ Lock(p) \/ Recheck(p) \/ Collect(p) \/ Collected(p) \/ Fill(p)
           \/ Store(p) \/ Unlock(p) \/ Use(p)
Next == \E p \in Threads : Step(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Threads : WF_vars(Step(p))

\* types reachable from t
RECURSIVE Reach1(_, _)
Reach1(S, n) == IF n = 0 THEN S ELSE Reach1(S \cup UNION {Deps(t) : t \in S}, n - 1)
ReachT(t) == Reach1({t}, Cardinality(Types)) \cap Types

\* what another thread can find is complete
PublishedComplete ==
  \A t \in Types : published[t] # 0 =>
     \A u \in ReachT(t) : published[u] # 0 /\ published[u] \in filled
\* what a thread uses is filled in
UseComplete == \A p \in Threads : pc[p] = "use" => got[p] \in filled
\* nobody looks at a map which is being written
NoRace == writing # 0 => \A p \in Threads : p = writing \/ pc[p] \notin {"lookup", "recheck"}
\* at most one builder
OneBuilder == Cardinality({p \in Threads : pc[p] \in {"recheck", "collect", "fill", "store"}}) <= 1
\* a published codec is never replaced by another one
Stable == [][\A t \in Types : published[t] # 0 => published'[t] = published[t]]_vars
Done == <>(\A p \in Threads : pc[p] = "idle" /\ left[p] = 0)
=============================================================================
