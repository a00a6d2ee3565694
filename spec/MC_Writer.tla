------------------------------ MODULE MC_Writer ------------------------------
(* All well-formed call sequences up to MaxCalls, with flushes to a writer  *)
(* which may accept any part of what it is given.                           *)
EXTENDS Writer, TLC, Json
CONSTANTS MaxCalls, MaxFlush, Faults, Emit

VARIABLES calls,   \* the calls and flushes so far
          stk, pop, buf, sink, fl
vars == <<calls, stk, pop, buf, sink, fl>>

Real(cs) == SelectSeq(cs, LAMBDA c : c \in {"v", "as", "ae", "os", "oe", "f"})

Init == calls = <<>> /\ stk = <<>> /\ pop = FALSE /\ buf = <<>> /\ sink = <<>> /\ fl = 0

Call(c) ==
  /\ Len(calls) < MaxCalls + fl /\ CanCall(stk, c)
  /\ Len(stk) < 4
  /\ calls' = Append(calls, c)
  /\ stk' = StkAfter(stk, c)
  /\ buf' = buf \o Written(pop, c)
  /\ pop' = PopAfter(c)
  /\ UNCHANGED <<sink, fl>>

\* the writer takes n bytes; "fl" all, "f0" none, "f1" one, "fx" all but one
Taken(o) == CASE o = "fl" -> Len(buf) [] o = "f0" -> 0 [] o = "f1" -> 1 [] OTHER -> Len(buf) - 1
Flush(o) ==
  /\ fl < MaxFlush
  /\ Taken(o) >= 0 /\ (o = "fl" \/ Taken(o) < Len(buf))
  /\ sink' = sink \o SubSeq(buf, 1, Taken(o))
  /\ buf' = SubSeq(buf, Taken(o) + 1, Len(buf))
  /\ calls' = Append(calls, o)
  /\ fl' = fl + 1
  /\ UNCHANGED <<stk, pop>>

Next == (\E c \in {"v", "as", "ae", "os", "oe", "f"} : Call(c))
        \/ \E o \in (IF Faults THEN {"fl", "f0", "f1", "fx"} ELSE {"fl"}) : Flush(o)
Spec == Init /\ [][Next]_vars

\* nothing is lost, duplicated or reordered
Exact == sink \o buf = Spell(Real(calls))

WCall(c) == CASE c = "v" -> [c |-> c, ty |-> [t |-> "int"], val |-> [k |-> "int", d |-> <<49>>]]
              [] c = "f" -> [c |-> c, s |-> <<97>>]
              [] OTHER -> [c |-> c]
\* complete sequences produce the JSON they spell
Spells ==
  stk = <<>> =>
    LET cs == Real(calls)
        y == Brackets(sink \o buf)
        w == SpellsOut([y |-> y, defs |-> <<>>, fl |-> <<>>, esc |-> FALSE, only |-> FALSE],
                       [i \in 1..Len(cs) |-> WCall(cs[i])], FALSE)
    IN w.i = Len(cs) + 1

Emitted == (Emit /\ stk = <<>> /\ calls # <<>>) => PrintT(<<"TRACE", ToJson(calls)>>)
=============================================================================
