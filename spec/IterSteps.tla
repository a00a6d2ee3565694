----------------------------- MODULE IterSteps -----------------------------
(***************************************************************************)
(* The reading steps of an iterator over a stream x, and the sessions of a *)
(* stream decoder.  A position p means that x[1..p-1] has been consumed.   *)
(*                                                                         *)
(* IStep(c, ev, p) is what the step ev.op may do at position p:            *)
(*   [r |-> "ok", v |-> result, nx |-> position after it],                 *)
(*   [r |-> "err"], [r |-> "eof"] (nothing but white space is left) or     *)
(*   [r |-> "any"] (left open).                                            *)
(* White space after nx may or may not have been consumed already.         *)
(***************************************************************************)
EXTENDS TypedDecode

OkP(v, nx) == [r |-> "ok", v |-> v, nx |-> nx]
ErrP == [r |-> "err"]
EofP == [r |-> "eof"]
AnyP == [r |-> "any"]

vUnit == [k |-> "nil"]
vBool(b) == [k |-> "bool", b |-> b]

VT(b) == CASE b = cQUOTE -> "string" [] b = cLBRK -> "array" [] b = cLBRC -> "object"
           [] b = 110 -> "null" [] b = 116 \/ b = 102 -> "bool"
           [] b = cMINUS \/ IsDigit(b) -> "number" [] OTHER -> "invalid"

\* the text from q on can still become a value (what is left may be cut off)
Viable(x, q) == RunFrom(x, q, "val", <<>>).c # "err"

\* a key with its colon, the opening quote is at q
KeyAt(x, q) ==
  IF q > Len(x) \/ x[q] # cQUOTE THEN [ok |-> FALSE]
  ELSE LET s == StrBody(x, q + 1, <<>>) IN
       IF ~ s.ok THEN [ok |-> FALSE]
       ELSE LET j == SkipWS(x, s.nx) IN
            IF j <= Len(x) /\ x[j] = cCOLON THEN [ok |-> TRUE, s |-> s.s, nx |-> j + 1] ELSE [ok |-> FALSE]

vFld(more, name) == [k |-> "fld", more |-> more, name |-> name]

FirstMember(x, q) ==  \* after the opening brace, q: next token
  IF q <= Len(x) /\ x[q] = cRBRC THEN OkP(vFld(FALSE, <<>>), q + 1)
  ELSE LET k == KeyAt(x, q) IN IF k.ok THEN OkP(vFld(TRUE, k.s), k.nx) ELSE ErrP

IntOps == {"i8", "i16", "i32", "i64", "int", "u8", "u16", "u32", "u64", "uint"}
IntTy(op) == CASE op = "i8"  -> [t |-> "int", w |-> 8,  sg |-> TRUE]
               [] op = "i16" -> [t |-> "int", w |-> 16, sg |-> TRUE]
               [] op = "i32" -> [t |-> "int", w |-> 32, sg |-> TRUE]
               [] op \in {"i64", "int"} -> [t |-> "int", w |-> 64, sg |-> TRUE]
               [] op = "u8"  -> [t |-> "int", w |-> 8,  sg |-> FALSE]
               [] op = "u16" -> [t |-> "int", w |-> 16, sg |-> FALSE]
               [] op = "u32" -> [t |-> "int", w |-> 32, sg |-> FALSE]
               [] OTHER      -> [t |-> "int", w |-> 64, sg |-> FALSE]

\* "0" directly followed by a digit: whether an integer read stops between
\* them or fails is left open
LeadingZero(x, n) == n.v.k = "num" /\ n.v.t \in {<<48>>, <<45, 48>>} /\ n.nx <= Len(x) /\ IsDigit(x[n.nx])

OfKind(n, kinds, v) == IF n.ok /\ n.v.k \in kinds THEN OkP(v, n.nx) ELSE ErrP
OfRes(n, r) == IF r.r = "ok" THEN OkP(r.v, n.nx) ELSE IF r.r = "any" THEN AnyP ELSE ErrP

IStep(c, ev, p) ==
  LET x == c.x
      q == SkipWS(x, p)
      n == PVal(x, q)
      op == ev.op
  IN
  IF q > Len(x) THEN EofP
  ELSE CASE op = "nvt" -> OkP([k |-> "vt", vt |-> VT(x[q])], q)
    [] op = "bool" -> IF n.ok /\ n.v.k \in {"true", "false"} THEN OkP(vBool(n.v.k = "true"), n.nx) ELSE ErrP
    [] op = "null" -> OfKind(n, {"null"}, vUnit)
    [] op = "str"  -> IF n.ok /\ n.v.k = "str" THEN OkP([k |-> "str", s |-> n.v.s], n.nx) ELSE ErrP
    [] op = "stra" -> IF n.ok /\ n.v.k = "str" THEN OkP([k |-> "str", s |-> ev.arg \o n.v.s], n.nx) ELSE ErrP
    [] op = "num"  -> IF n.ok /\ n.v.k = "num" THEN OkP([k |-> "num", t |-> n.v.t], n.nx) ELSE ErrP
    [] op \in IntOps -> IF ~ n.ok \/ n.v.k # "num" THEN ErrP
                        ELSE IF LeadingZero(x, n) THEN AnyP
                        ELSE OfRes(n, DecInt(IntTy(op), n.v.t))
    [] op \in {"f32", "f64"} ->
         IF ~ n.ok \/ n.v.k # "num" THEN ErrP
         ELSE OfRes(n, DecFloat(c, [t |-> "float", w |-> IF op = "f32" THEN 32 ELSE 64], n.v.t))
    [] op = "skip" -> IF n.ok THEN OkP(vUnit, n.nx) ELSE ErrP
    [] op = "skipstr" -> OfKind(n, {"str"}, vUnit)
    [] op = "skipnum" -> OfKind(n, {"num"}, vUnit)
    [] op = "skiparr" -> OfKind(n, {"arr"}, vUnit)
    [] op = "skipobj" -> OfKind(n, {"obj"}, vUnit)
    [] op \in {"raw", "readraw"} -> IF n.ok THEN OkP([k |-> "raw", r |-> Raw(x, n.v)], n.nx) ELSE ErrP
    [] op = "appraw" -> IF n.ok THEN OkP([k |-> "raw", r |-> ev.arg \o Raw(x, n.v)], n.nx) ELSE ErrP
    [] op = "read" -> IF n.ok THEN OfRes(n, Untyped(c, n.v, c.un)) ELSE ErrP
    [] op = "val"  -> IF n.ok THEN OfRes(n, Dec(c, ev.ty, n.v, ev.prior, FALSE)) ELSE ErrP
    \* reading with a callback which captures every element or member
    [] op = "acb" -> IF n.ok /\ n.v.k = "arr"
                     THEN OkP([k |-> "caps", l |-> [i \in 1..Len(n.v.l) |-> Raw(x, n.v.l[i])]], n.nx) ELSE ErrP
    [] op = "ocb" -> IF n.ok /\ n.v.k = "obj"
                     THEN OkP([k |-> "capm", l |-> [i \in 1..Len(n.v.m) |-> [n |-> n.v.m[i].n, r |-> Raw(x, n.v.m[i].v)]]], n.nx)
                     ELSE ErrP
    [] op = "ab" -> IF x[q] # cLBRK THEN ErrP
                    ELSE LET j == SkipWS(x, q + 1) IN
                         IF j > Len(x) THEN ErrP
                         ELSE IF x[j] = cRBRK THEN OkP(vBool(FALSE), j + 1) ELSE OkP(vBool(TRUE), q + 1)
    [] op = "am" -> CASE x[q] = cCOMMA -> OkP(vBool(TRUE), q + 1)
                      [] x[q] = cRBRK  -> OkP(vBool(FALSE), q + 1)
                      [] OTHER -> ErrP
    [] op = "ob" -> IF x[q] # cLBRC THEN ErrP ELSE FirstMember(x, SkipWS(x, q + 1))
    [] op = "om" -> CASE x[q] = cRBRC -> OkP(vFld(FALSE, <<>>), q + 1)
                      [] x[q] = cCOMMA ->
                           LET k == KeyAt(x, SkipWS(x, q + 1)) IN IF k.ok THEN OkP(vFld(TRUE, k.s), k.nx) ELSE ErrP
                      [] OTHER -> ErrP
    [] OTHER -> ErrP

\* the position after a step may lie anywhere in the white space behind it
PosOK(x, nx, pos) == pos >= nx /\ pos <= SkipWS(x, nx)

\* a failing step may only blame the end of the stream if the stream could
\* have gone on
EofFair(x, p) == Viable(x, SkipWS(x, p)) \/ SkipWS(x, p) > Len(x)
\* between the members of a container what follows need not be a value
EofFairOp(x, op, p) ==
  LET q == SkipWS(x, p) IN
  IF q > Len(x) THEN TRUE
  ELSE CASE op = "om" -> RunFrom(x, q, "end", <<"O">>).c # "err"
         [] op = "am" -> RunFrom(x, q, "end", <<"A">>).c # "err"
         [] OTHER -> Viable(x, q)

\* steps of one trace; each ev: [op, out, res, pos (after), ...]
RECURSIVE StepsOK(_, _, _, _)
StepsOK(c, evs, i, p) ==
  IF i > Len(evs) THEN TRUE
  ELSE LET ev == evs[i]
           e == IStep(c, ev, p)
       IN CASE e.r = "any" -> ev.out \in {"ok", "err", "eof"}
            [] e.r = "eof" -> ev.out = "eof"
            [] e.r = "err" -> ev.out = "err" \/ (ev.out = "eof" /\ EofFairOp(c.x, ev.op, p))
            [] OTHER -> /\ ev.out = "ok"
                        /\ ev.res = e.v
                        /\ PosOK(c.x, e.nx, ev.pos)
                        /\ StepsOK(c, evs, i + 1, ev.pos)

\* index of the first step which is not allowed (0: none) and what was allowed
RECURSIVE FirstBadStep(_, _, _, _)
FirstBadStep(c, evs, i, p) ==
  IF i > Len(evs) THEN <<0>>
  ELSE IF ~ StepsOK(c, << evs[i] >>, 1, p) /\ IStep(c, evs[i], p).r # "any" THEN <<i, evs[i].op, p, IStep(c, evs[i], p)>>
  ELSE IF evs[i].out # "ok" THEN <<0>>
  ELSE FirstBadStep(c, evs, i + 1, evs[i].pos)

------------------------------------------------------------------------------
(* A stream decoder: state [p, failed, un, duf]; every event carries the   *)
(* observed offset (bytes consumed), the buffered bytes, and the number of *)
(* bytes the reader has delivered so far.                                  *)
Account(x, ev) == /\ ev.off <= ev.del
                  /\ ev.buf = SubSeq(x, ev.off + 1, ev.del)

RECURSIVE SessOK(_, _, _, _)
SessOK(c, evs, i, st) ==
  IF i > Len(evs) THEN TRUE
  ELSE LET ev == evs[i]
           x == c.x
           q == SkipWS(x, st.p)
       IN CASE ev.op = "usenum" -> SessOK([c EXCEPT !.un = TRUE], evs, i + 1, st)
            [] ev.op = "duf" -> SessOK([c EXCEPT !.duf = TRUE], evs, i + 1, st)
            [] ev.op = "grow" ->   \* the stream goes on where it ended
                 SessOK([c EXCEPT !.x = ev.x], evs, i + 1, st)
            [] ev.op = "more" ->
                 /\ ev.res = vBool(~ st.failed /\ q <= Len(x))
                 /\ Account(x, ev)
                 /\ \/ st.failed
                    \/ PosOK(x, st.p, ev.off + 1)
                 /\ SessOK(c, evs, i + 1, IF st.failed THEN st ELSE [st EXCEPT !.p = ev.off + 1])
            [] ev.op = "look" ->   \* offset and buffered data only
                 /\ Account(x, ev)
                 /\ st.failed \/ PosOK(x, st.p, ev.off + 1)
                 /\ SessOK(c, evs, i + 1, st)
            [] ev.op = "decode" ->
                 IF st.failed THEN ev.out # "ok" /\ ev.same /\ SessOK(c, evs, i + 1, st)
                 ELSE LET n == PVal(x, q)
                          e == IF q > Len(x) THEN EofP
                               ELSE IF ~ n.ok THEN ErrP
                               ELSE OfRes(n, Dec(c, ev.ty, n.v, ev.prior, FALSE))
                      IN CASE e.r = "any" -> ev.out \in {"ok", "err", "eof"}
                           [] e.r = "eof" -> /\ ev.out = "eof"
                                             /\ SessOK(c, evs, i + 1, [st EXCEPT !.failed = TRUE])
                           [] e.r = "err" -> /\ (ev.out = "err" \/ (ev.out = "eof" /\ EofFair(x, st.p)))
                                             /\ SessOK(c, evs, i + 1, [st EXCEPT !.failed = TRUE])
                           [] OTHER -> /\ ev.out = "ok" /\ ev.res = e.v
                                       /\ Account(x, ev)
                                       /\ PosOK(x, e.nx, ev.off + 1)
                                       /\ SessOK(c, evs, i + 1, [st EXCEPT !.p = ev.off + 1])
            [] OTHER -> FALSE

SessStart == [p |-> 1, failed |-> FALSE]

------------------------------------------------------------------------------
(* Reader failures: the reader delivered x and then failed (the last piece *)
(* of length t came together with the failure and may be ignored).         *)
(* out: "ok", "fault" (the reader's error), "err" (another error)          *)
(* whole: the operation has to see the end of the text                     *)
SelfEnding(n) == n.v.k # "num"
FaultAllowed(x, whole) ==
  LET q == SkipWS(x, 1)
      n == PVal(x, q)
      run == RunFrom(x, 1, "val", <<>>)
  IN IF whole
     THEN IF run.c = "err" THEN {"err"} ELSE {"fault"}
     ELSE IF n.ok /\ (SelfEnding(n) \/ n.nx <= Len(x)) THEN {"ok"}
          ELSE IF run.c = "err" THEN {"err"} ELSE {"fault"}
FaultOK(r) ==
  LET a == FaultAllowed(r.x, r.whole)
      b == FaultAllowed(SubSeq(r.x, 1, Len(r.x) - r.t), r.whole)
  IN r.out \in (a \cup b) \/ (r.t > 0 /\ r.out = "fault")
=============================================================================
