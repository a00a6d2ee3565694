------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* Conformance of recorded behaviour of the implementation: every record   *)
(* of a file (one JSON object per line, written by the harness) must be a  *)
(* behaviour the specification allows.  The records are the states of a    *)
(* trivial system, so TLC judges them in parallel.                         *)
(***************************************************************************)
EXTENDS IterSteps, RoundTrip, NumText, FloatText, TLCExt, IOUtils, Json

CONSTANT K   \* number of initial states (parallelism)

Recs == ndJsonDeserialize(IOEnv.JUDGE_FILE)
N == Len(Recs)

VARIABLE i

Ctx(r) == [x |-> r.x, defs |-> Decls(r.defs), fl |-> r.fl, cs |-> r.cs, duf |-> r.duf, un |-> r.un, only |-> r.only]

Text(r) == r.x

\* decoding: outcome and resulting value
DecOK(r) ==
  LET e == DecText(Ctx(r), r.ty, r.prior) IN
  CASE e.r = "any" -> r.out \in {"ok", "err"}
    [] e.r = "err" -> r.out = "err" /\ ("own" \in DOMAIN e => r.own)   \* the error of a codec is returned
    [] OTHER -> r.out = "ok" /\ r.val = e.v
\* slices are built afresh: who holds a slice of the old destination sees no change
NearOK(r) == "near" \in DOMAIN r =>   \* what an error message shows of the text is a part of this text
  \E k \in 0..(Len(r.x) - Len(r.near)) : SubSeq(r.x, k + 1, k + Len(r.near)) = r.near
HeldOK(r) == "held" \in DOMAIN r => \A k \in 1..Len(r.held) : r.held[k].b = r.held[k].a

\* integer texts read as an integer of width w
IntItemOK(r, it) ==
  IF IsIntText(it.t) /\ InRange(it.t, r.w, r.sg)
  THEN it.out = "ok" /\ it.d = Canon(it.t)
  ELSE it.out = "err"
IntsOK(r) == \A k \in 1..Len(r.items) : IntItemOK(r, r.items[k])
BadInts(r) == SelectSeq(r.items, LAMBDA it : ~ IntItemOK(r, it))

\* encoding; the text may have to end with a line feed
ECtx(r) == [y |-> r.y, defs |-> Decls(r.defs), fl |-> r.fl, esc |-> r.esc, only |-> r.only]
EncOK(r) ==
  /\ r.nl /\ r.out = "ok" => (r.y # <<>> /\ r.y[Len(r.y)] = 10 /\ (Len(r.y) > 1 => r.y[Len(r.y) - 1] # 10))
  /\ EncOutcome(ECtx(r), r.ty, r.val, r.out, r.y)
  /\ r.out = "err" /\ Errs(ECtx(r), r.ty, r.val) /\ ~ Unsupported(ECtx(r), r.ty, r.val) => r.own

\* encoded strings
EncStrItemOK(r, it) ==
  LET p == Parse(it.y) IN
  /\ it.out = "ok" /\ p.ok
  /\ CASE r.place = "val" -> StrMatch(it.y, p.v, it.s, r.esc)
       [] r.place = "elem" -> p.v.k = "arr" /\ Len(p.v.l) = 1 /\ StrMatch(it.y, p.v.l[1], it.s, r.esc)
       [] r.place = "key" ->
            /\ p.v.k = "obj" /\ Len(p.v.m) = 1
            /\ p.v.m[1].n = Sanitize(it.s)
            /\ LitOK(SubSeq(it.y, p.v.m[1].kb, p.v.m[1].kb + p.v.m[1].kl - 1), p.v.m[1].n, r.esc)
            /\ p.v.m[1].v.k = "num" /\ p.v.m[1].v.t = <<49>>
       [] r.place = "quoted" ->
            /\ p.v.k = "obj" /\ Len(p.v.m) = 1
            /\ EncMatch([y |-> it.y, esc |-> r.esc], [t |-> "string"], [k |-> "str", s |-> it.s], p.v.m[1].v, TRUE)
       [] OTHER -> FALSE

\* encoded numbers
EncNumItemOK(it) ==
  IF it.fl
  THEN IF it.fin THEN it.out = "ok" /\ it.y = FloatText(it.neg, it.digs, it.ex)
       ELSE it.out = "err" /\ it.y = <<>>
  ELSE it.out = "ok" /\ it.y = it.d

\* numbers read as floats, or kept as texts
FltOK(r, it) == IF r.w = 0 THEN NumKeptOK(it) ELSE FloatItemOK(r.w, it)

Judgement(r) ==
  CASE r.kind = "dec" -> DecOK(r) /\ HeldOK(r) /\ NearOK(r)
    [] r.kind = "iter" -> StepsOK(Ctx(r), r.evs, 1, 1)
    [] r.kind = "sess" -> SessOK(Ctx(r), r.evs, 1, SessStart)
    [] r.kind = "fault" -> FaultOK(r)
    [] r.kind = "ints" -> IntsOK(r)
    [] r.kind = "enc" -> EncOK(r)
    [] r.kind = "encs" -> \A k \in 1..Len(r.items) : EncStrItemOK(r, r.items[k])
    [] r.kind = "encn" -> \A k \in 1..Len(r.items) : EncNumItemOK(r.items[k])
    [] r.kind = "flts" -> \A k \in 1..Len(r.items) : FltOK(r, r.items[k])
    [] r.kind = "wr" -> SegsOK(ECtx(r), r.segs, 1, r.esc)
    [] r.kind = "encd" -> EncoderOK(ECtx(r), r.evs, 1, "")
    [] r.kind = "rt" -> RoundTripOK(r)
    [] r.kind = "rtu" -> TextTripOK(Ctx(r), r)
    [] OTHER -> FALSE

Expected(r) ==
  CASE r.kind = "dec" -> DecText(Ctx(r), r.ty, r.prior)
    [] r.kind = "iter" -> FirstBadStep(Ctx(r), r.evs, 1, 1)
    [] r.kind = "sess" -> "session"
    [] r.kind = "fault" -> FaultAllowed(r.x, r.whole)
    [] r.kind = "ints" -> BadInts(r)
    [] r.kind = "enc" -> "encoding"
    [] r.kind = "encs" -> SelectSeq(r.items, LAMBDA it : ~ EncStrItemOK(r, it))
    [] r.kind = "encn" -> SelectSeq(r.items, LAMBDA it : ~ EncNumItemOK(it))
    [] r.kind = "flts" -> SelectSeq(r.items, LAMBDA it : ~ FltOK(r, it))
    [] r.kind \in {"wr", "encd"} -> "the text spelled, flushed in order, and the writer's error"
    [] r.kind = "rt" -> Norm([defs |-> Decls(r.defs), only |-> r.only], r.ty, r.val)
    [] r.kind = "rtu" -> DecText(Ctx(r), [t |-> "any"], vNil)
    [] OTHER -> "unknown record"

Init == i \in 1..(IF K < N THEN K ELSE N)
Next == i + K <= N /\ i' = i + K
Spec == Init /\ [][Next]_i

\* always true; prints what disagrees, so that one run reports everything
Judged == Judgement(Recs[i]) \/ PrintT(<<"BAD", i, Recs[i].id, ToString(Expected(Recs[i]))>>)
=============================================================================
