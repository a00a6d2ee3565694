------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* The streaming writer: calls, the text they spell, flushing to a writer  *)
(* which may refuse bytes, and the stream encoder on top of it.            *)
(*                                                                         *)
(* A call is "v" (a value), "as" "ae" "os" "oe" (begin and end of arrays   *)
(* and objects) or "f" (the name of a member).                             *)
(***************************************************************************)
EXTENDS TypedEncode

------------------------------------------------------------------------------
(* Well-formed call sequences: stk holds "a", "o" (a name or the end is    *)
(* next) and "k" (the value of a member is next)                           *)
WTop(stk) == IF stk = <<>> THEN "top" ELSE stk[Len(stk)]
WPop(stk) == SubSeq(stk, 1, Len(stk) - 1)
\* a value has been completed
AfterVal(stk) == IF WTop(stk) = "k" THEN Append(WPop(stk), "o") ELSE stk

CanCall(stk, c) ==
  CASE c \in {"v", "as", "os"} -> WTop(stk) # "o"
    [] c = "f"  -> WTop(stk) = "o"
    [] c = "ae" -> WTop(stk) = "a"
    [] c = "oe" -> WTop(stk) = "o"
    [] OTHER -> FALSE

StkAfter(stk, c) ==
  CASE c = "v"  -> AfterVal(stk)
    [] c = "as" -> Append(stk, "a")
    [] c = "os" -> Append(stk, "o")
    [] c = "f"  -> Append(WPop(stk), "k")
    [] OTHER    -> AfterVal(WPop(stk))

------------------------------------------------------------------------------
(* The machine: one bit of separator state *)
Lexeme(c) == CASE c = "v"  -> <<49>>
               [] c = "as" -> <<91>>
               [] c = "ae" -> <<93>>
               [] c = "os" -> <<123>>
               [] c = "oe" -> <<125>>
               [] OTHER    -> <<34, 97, 34, 58>>       \* "a":
Opens(c) == c \in {"v", "as", "os", "f"}
Written(pop, c) == (IF Opens(c) /\ pop THEN <<44>> ELSE <<>>) \o Lexeme(c)
PopAfter(c) == c \in {"v", "ae", "oe"}

(* What a call sequence spells: a comma stands between a completed value   *)
(* and whatever begins next                                                *)
RECURSIVE SpellFrom(_, _, _)
SpellFrom(cs, i, acc) ==
  IF i > Len(cs) THEN acc
  ELSE SpellFrom(cs, i + 1,
         acc \o (IF i > 1 /\ cs[i - 1] \in {"v", "ae", "oe"} /\ Opens(cs[i]) THEN <<44>> ELSE <<>>) \o Lexeme(cs[i]))
Spell(cs) == SpellFrom(cs, 1, <<>>)

------------------------------------------------------------------------------
(* A parsed text against a call sequence (with the values given).          *)
(* Calls: [c |-> "v", ty, val], [c |-> "f", s], [c |-> "rf", s], "as" ...  *)
(* and [c |-> "esc", on]: HTML escaping is switched.                       *)
(* WalkSeq matches the nodes from index j on, and returns the index of the *)
(* call after them, and the escaping in force; index 0: no match           *)
RECURSIVE WalkSeq(_, _, _, _, _, _), WalkVal(_, _, _, _, _), WalkMem(_, _, _, _, _, _)
NoWalk == [i |-> 0, esc |-> FALSE]

WalkVal(c, cs, i, node, esc) ==
  IF i > Len(cs) THEN NoWalk
  ELSE CASE cs[i].c = "esc" -> WalkVal(c, cs, i + 1, node, cs[i].on)
    [] cs[i].c = "v" ->
         IF EncMatch([c EXCEPT !.esc = esc], cs[i].ty, cs[i].val, node, FALSE) THEN [i |-> i + 1, esc |-> esc] ELSE NoWalk
    [] cs[i].c = "as" -> IF node.k = "arr" THEN WalkSeq(c, cs, i + 1, node.l, 1, esc) ELSE NoWalk
    [] cs[i].c = "os" -> IF node.k = "obj" THEN WalkMem(c, cs, i + 1, node.m, 1, esc) ELSE NoWalk
    [] OTHER -> NoWalk

\* the elements, then "ae" (or the end of the calls, at the top level)
WalkSeq(c, cs, i, nodes, j, esc) ==
  IF i > Len(cs) THEN (IF j > Len(nodes) THEN [i |-> i, esc |-> esc] ELSE NoWalk)
  ELSE IF cs[i].c = "esc" THEN WalkSeq(c, cs, i + 1, nodes, j, cs[i].on)
  ELSE IF cs[i].c = "ae" THEN (IF j > Len(nodes) THEN [i |-> i + 1, esc |-> esc] ELSE NoWalk)
  ELSE IF j > Len(nodes) THEN NoWalk
  ELSE LET r == WalkVal(c, cs, i, nodes[j], esc) IN
       IF r.i = 0 THEN NoWalk ELSE WalkSeq(c, cs, r.i, nodes, j + 1, r.esc)

WalkMem(c, cs, i, mem, j, esc) ==
  IF i > Len(cs) THEN NoWalk
  ELSE IF cs[i].c = "esc" THEN WalkMem(c, cs, i + 1, mem, j, cs[i].on)
  ELSE IF cs[i].c = "oe" THEN (IF j > Len(mem) THEN [i |-> i + 1, esc |-> esc] ELSE NoWalk)
  ELSE IF j > Len(mem) THEN NoWalk
  ELSE LET lit == SubSeq(c.y, mem[j].kb, mem[j].kb + mem[j].kl - 1)
           name == CASE cs[i].c = "f"  -> mem[j].n = Sanitize(cs[i].s) /\ LitOK(lit, mem[j].n, esc)
                     [] cs[i].c = "rf" -> lit = cs[i].s
                     [] OTHER -> FALSE
           r == IF name THEN WalkVal(c, cs, i + 1, mem[j].v, esc) ELSE NoWalk
       IN IF r.i = 0 THEN NoWalk ELSE WalkMem(c, cs, r.i, mem, j + 1, r.esc)

\* y is what the calls spell; all the calls are used
Brackets(y) == <<91>> \o y \o <<93>>
SpellsOut(c, cs, esc) ==       \* c.y: the text within brackets
  LET p == Parse(c.y) IN
  IF ~ p.ok THEN NoWalk
  ELSE WalkSeq(c, cs, 1, p.v.l, 1, esc)

------------------------------------------------------------------------------
(* Recorded sessions.  A session is a sequence of segments (between        *)
(* Resets): ref, the calls without the failed ones, their text y, and the  *)
(* events of the session: flushes and failing calls                        *)
(*   [e |-> "fl", acc |-> bytes accepted, av |-> length of the text        *)
(*    spelled so far, werr |-> error of the writer or "", short |-> fewer  *)
(*    bytes accepted without an error, ret |-> result]                     *)
(*   [e |-> "bad"]                                                         *)
RECURSIVE FlushesOK(_, _, _, _, _)
FlushesOK(y, evs, k, pos, bad) ==
  IF k > Len(evs) THEN TRUE
  ELSE LET e == evs[k] IN
  IF e.e = "bad" THEN FlushesOK(y, evs, k + 1, pos, TRUE)
  ELSE IF e.e = "now" THEN e.err = bad /\ FlushesOK(y, evs, k + 1, pos, bad)
  ELSE IF e.e = "nowriter" THEN e.ret # "ok" /\ FlushesOK(y, evs, k + 1, pos, bad)
  ELSE LET p2 == pos + Len(e.acc) IN
       IF bad THEN e.acc = <<>> /\ e.ret = "enc" /\ FlushesOK(y, evs, k + 1, pos, bad)
       ELSE /\ p2 <= e.av /\ p2 <= Len(y)
            /\ e.acc = SubSeq(y, pos + 1, p2)
            /\ IF e.werr # "" THEN e.ret = e.werr
               ELSE e.short \/ (e.ret = "ok" /\ p2 = e.av)
            /\ FlushesOK(y, evs, k + 1, p2, bad)

RECURSIVE SegsOK(_, _, _, _)
SegsOK(c, segs, k, esc) ==
  IF k > Len(segs) THEN TRUE
  ELSE LET s == segs[k]
           w == SpellsOut([c EXCEPT !.y = Brackets(s.y)], s.ref, esc)
       IN w.i = Len(s.ref) + 1 /\ FlushesOK(s.y, s.evs, 1, 0, FALSE) /\ SegsOK(c, segs, k + 1, s.escEnd)

------------------------------------------------------------------------------
(* Stream encoder sessions.  Events:                                       *)
(*   [e |-> "enc", ty, val, esc, ref (the text and the line feed, written  *)
(*    without faults), acc, werr, ret]                                     *)
(* first: the first error                                                  *)
RECURSIVE EncoderOK(_, _, _, _)
EncoderOK(c, evs, k, first) ==
  IF k > Len(evs) THEN TRUE
  ELSE LET e == evs[k]
           ce == [c EXCEPT !.y = e.ref, !.esc = e.esc]
       IN
  IF first # "" THEN e.acc = <<>> /\ e.ret = first /\ EncoderOK(c, evs, k + 1, first)
  ELSE IF Errs(ce, e.ty, e.val)
  THEN e.acc = <<>> /\ e.ret = "enc" /\ EncoderOK(c, evs, k + 1, e.ret)
  ELSE /\ e.ref # <<>> /\ e.ref[Len(e.ref)] = 10
       /\ EncOutcome(ce, e.ty, e.val, "ok", e.ref)
       /\ IsPrefixOf(e.acc, e.ref)
       /\ IF e.short  \* the writer took less than it was given and did not say why
          THEN e.ret = "short" /\ EncoderOK(c, evs, k + 1, e.ret)
          ELSE IF e.werr = "" THEN e.ret = "ok" /\ e.acc = e.ref /\ EncoderOK(c, evs, k + 1, "")
          ELSE e.ret = e.werr /\ EncoderOK(c, evs, k + 1, e.ret)
=============================================================================
