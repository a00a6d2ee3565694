------------------------------- MODULE MC_Pool -------------------------------
(***************************************************************************)
(* Pooled iterators and streamers have a past.  Every field of the pooled  *)
(* object is "new" (what the coming operation needs), "old" (left over     *)
(* from an earlier operation) or "junk" (never meaningful before it is     *)
(* written).  Borrowing sets the runtime settings of the configuration,    *)
(* every entry point resets the positions, and returning clears the rest.  *)
(* Whatever the history, an operation reads no field which is "old".       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxOps, Emit

\* operations on iterators: what they leave in the object before it is
\* returned; "panic": user code panics, and the object is not returned
DecOps == {"ok", "err", "reader", "raw", "settings", "abandon", "panic", "eface", "ctx", "deep", "valid", "reent", "reuse"}
EncOps == {"eok", "eerr", "eabandon", "eesc", "epanic", "ewerr", "ectx"}

ItFields == {"cfg", "settings", "reader", "buffer", "pos", "capture", "eface", "ctx"}
StFields == {"cfg", "esc", "writer", "text", "sep", "err", "ctx"}

VARIABLES ops, it, st
vars == <<ops, it, st>>

\* fields an operation may leave behind (before the object is returned)
ItDirty(o) ==
  CASE o = "ok"       -> {"cfg", "buffer", "pos"}
    [] o \in {"err", "abandon"} -> {"cfg", "reader", "buffer", "pos", "eface"}
    [] o = "reader"   -> {"cfg", "reader", "buffer", "pos"}
    [] o \in {"raw", "reent", "reuse"} -> {"cfg", "reader", "buffer", "pos", "capture"}
    [] o = "settings" -> {"cfg", "settings", "reader", "buffer", "pos"}
    [] o = "eface"    -> {"cfg", "buffer", "pos", "eface"}
    [] o = "ctx"      -> {"cfg", "buffer", "pos", "ctx"}
    [] OTHER          -> {"cfg", "buffer", "pos"}
StDirty(o) ==
  CASE o = "eok"      -> {"cfg", "text", "sep"}
    [] o = "eerr"     -> {"cfg", "text", "sep", "err"}
    [] o = "eabandon" -> {"cfg", "writer", "text", "sep"}
    [] o = "eesc"     -> {"cfg", "esc", "text", "sep", "writer"}
    [] o = "epanic"   -> {"cfg", "text", "sep"}
    [] o = "ewerr"    -> {"cfg", "writer", "text", "sep", "err"}
    [] OTHER          -> {"cfg", "ctx", "text", "sep"}

\* set on borrowing
ItBorrow == {"cfg", "settings"}
StBorrow == {"cfg", "esc"}
\* cleared on return
ItReturn == {"reader", "buffer", "pos", "capture", "eface", "ctx", "cfg"}
StReturn == {"writer", "text", "sep", "err", "ctx", "cfg"}

Init == ops = <<>> /\ it = [f \in ItFields |-> "new"] /\ st = [f \in StFields |-> "new"]

\* the object an operation starts with
ItStart == [f \in ItFields |-> IF f \in ItBorrow THEN "new" ELSE it[f]]
StStart == [f \in StFields |-> IF f \in StBorrow THEN "new" ELSE st[f]]

Dec(o) ==
  /\ ops' = Append(ops, o)
  /\ it' = IF o = "panic" THEN [f \in ItFields |-> "new"]      \* another object next time
           ELSE LET used == [f \in ItFields |-> IF f \in ItDirty(o) THEN "old" ELSE ItStart[f]]
                IN [f \in ItFields |-> IF f \in ItReturn THEN "new" ELSE used[f]]
  /\ UNCHANGED st
Enc(o) ==
  /\ ops' = Append(ops, o)
  /\ st' = LET used == [f \in StFields |-> IF f \in StDirty(o) THEN "old" ELSE StStart[f]]
           IN [f \in StFields |-> IF f \in StReturn THEN "new" ELSE used[f]]
  /\ UNCHANGED it
Next == Len(ops) < MaxOps /\ ((\E o \in DecOps : Dec(o)) \/ (\E o \in EncOps : Enc(o)))
Spec == Init /\ [][Next]_vars

Harmless == (\A f \in ItFields : ItStart[f] = "new") /\ (\A f \in StFields : StStart[f] = "new")
Emitted == (Emit /\ Len(ops) = MaxOps) => PrintT(<<"TRACE", ToJson(ops)>>)
=============================================================================
