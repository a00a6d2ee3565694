-------------------------- MODULE MC_StructFields --------------------------
(***************************************************************************)
(* All small programs of struct types: type 1 is the root; every type has  *)
(* up to MaxBelow fields out of: a field A, a field tagged "A", a field B, and  *)
(* embeddings of the types.  The breadth first collection of StructFields  *)
(* (which is how encoding/json and jzon find the members) is compared with *)
(* the declarative rule over all paths.                                    *)
(*                                                                         *)
(* With Emit, the acyclic programs are printed for replay.                 *)
(***************************************************************************)
EXTENDS StructFields, TLC, Json
CONSTANTS NT, MaxRoot, MaxBelow, Cyclic, Emit
VARIABLE g    \* the types chosen so far: sequences of options

\* options: 1 = field A, 2 = field tagged "A", 3 = field B, 3 + j = embeds type j
Opts(i) == {1, 2, 3} \cup {3 + j : j \in {j \in 1..NT : Cyclic \/ j > i}}
Sorted(s) == \A k \in 1..Len(s) - 1 : s[k] <= s[k + 1] /\ (s[k] \in {1, 3} => s[k] # s[k + 1])
Menu(i) == {s \in UNION {[1..k -> Opts(i)] : k \in 0..(IF i = 1 THEN MaxRoot ELSE MaxBelow)} : Sorted(s)}

Init == g = <<>>
Next == Len(g) < NT /\ \E m \in Menu(Len(g) + 1) : g' = Append(g, m)
Spec == Init /\ [][Next]_g

TInt == [t |-> "int"]
FieldOf(i, o) ==
  [gn |-> IF o = 1 THEN <<65>> ELSE IF o = 2 THEN <<84>> ELSE IF o = 3 THEN <<66>> ELSE <<69>>,
   exp |-> TRUE, anon |-> o > 3, tagged |-> o = 2, tag |-> IF o = 2 THEN <<65>> ELSE <<>>,
   ty |-> IF o <= 3 THEN TInt
          ELSE IF o - 3 <= i THEN [t |-> "ptr", e |-> [t |-> "struct", id |-> o - 3]]
          ELSE [t |-> "struct", id |-> o - 3]]
Defs == Decls([i \in 1..NT |-> [k \in 1..Len(g[i]) |-> FieldOf(i, g[i][k])]])

\* is some type embedded more than once at the level at which it is first met?
RECURSIVE LevelTwice(_, _)
LevelTwice(cur, seen) ==
  IF cur = <<>> THEN FALSE
  ELSE \/ \E i \in 1..Len(cur) : cur[i].id \notin seen /\ CountOf(cur, cur[i].id) > 1
       \/ LevelTwice(LevelNext(Defs, cur, 1, seen, FALSE, <<>>), seen \cup {cur[i].id : i \in 1..Len(cur)})
Twice == LevelTwice(<<[id |-> 1, path |-> <<>>]>>, {})

Range_(s) == {s[i] : i \in 1..Len(s)}
Full == Len(g) = NT
F == Fields(Defs, 1, FALSE)
\* a name is a member once
Distinct == Full => LET f == F IN \A i, j \in 1..Len(f) : i # j => f[i].n # f[j].n
\* in declaration order
Ordered == Full => LET f == F IN \A i \in 1..Len(f) - 1 : PathLess(f[i].path, f[i + 1].path)
\* the breadth first collection finds what the rule says; when a type is
\* embedded twice in one struct, the fields of types below it (which the rule
\* would let hide each other) stay visible, as in encoding/json
Agrees == Full => LET f == Range_(F) d == DeclFields(Defs, 1, FALSE) IN
                  /\ d \subseteq f
                  /\ ~ Twice => f = d
Emitted == (Emit /\ Full) => PrintT(<<"TRACE", ToJson(g)>>)
=============================================================================
