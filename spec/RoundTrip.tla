----------------------------- MODULE RoundTrip -----------------------------
(***************************************************************************)
(* What decoding the encoding of a value yields.  Values are those of      *)
(* TypedDecode (what interfaces hold is what untyped decoding yields).     *)
(***************************************************************************)
EXTENDS Writer

\* v is encoded as null
RECURSIVE AsNull(_, _)
AsNull(ty, v) ==
  CASE ty.t = "ptr" -> v.k = "nil" \/ AsNull(ty.e, v.p)
    [] ty.t \in {"slice", "map", "any"} -> v.k = "nil"
    [] ty.t = "raw" -> v.k = "nil" \/ v.r = sNULL
    [] OTHER -> FALSE

SanStr(v) == [v EXCEPT !.s = Sanitize(v.s)]

RECURSIVE SanAny(_)
SanAny(v) ==
  CASE v.k = "str"  -> SanStr(v)
    [] v.k = "aarr" -> [v EXCEPT !.l = [i \in 1..Len(v.l) |-> SanAny(v.l[i])]]
    [] v.k = "aobj" -> [v EXCEPT !.m = [i \in 1..Len(v.m) |-> [mk |-> v.m[i].mk, mv |-> SanAny(v.m[i].mv)]]]
    [] OTHER -> v

RECURSIVE Norm(_, _, _), PutAll(_, _, _, _, _), Put(_, _, _, _, _)
Norm(c, ty, v) ==
  CASE ty.t = "string" -> SanStr(v)
    [] ty.t = "number" -> IF v.t = <<>> THEN [v EXCEPT !.t = <<48>>] ELSE v
    [] ty.t = "raw" -> IF v.k = "nil" THEN [k |-> "raw", r |-> sNULL] ELSE v
    [] ty.t = "any" -> SanAny(v)
    [] ty.t = "ptr" -> IF AsNull(ty, v) THEN vNil ELSE [k |-> "ptr", p |-> Norm(c, ty.e, v.p)]
    [] ty.t \in {"slice", "array"} ->
         IF v.k = "nil" THEN vNil ELSE [k |-> "list", l |-> [i \in 1..Len(v.l) |-> Norm(c, ty.e, v.l[i])]]
    [] ty.t = "map" ->
         IF v.k = "nil" THEN vNil
         ELSE [k |-> "map", m |-> [i \in 1..Len(v.m) |-> [mk |-> v.m[i].mk, mv |-> Norm(c, ty.e, v.m[i].mv)]]]
    [] ty.t = "struct" -> PutAll(c, ty, Members(c, ty, v), 1, Zero(c.defs, ty))
    [] OTHER -> v

\* the members of a struct, put one after the other into a fresh struct
PutAll(c, ty, ms, i, v) ==
  IF i > Len(ms) THEN v ELSE PutAll(c, ty, ms, i + 1, Put(c, ms[i], ms[i].f.path, ty, v))
Put(c, m, path, ty, v) ==
  LET d == c.defs[ty.id][path[1]]
      old == v.f[path[1]]
      new == IF Len(path) = 1 THEN Norm(c, d.ty, m.v)
             ELSE IF d.ty.t = "ptr"
             THEN [k |-> "ptr", p |-> Put(c, m, Tail(path), d.ty.e, IF old.k = "nil" THEN Zero(c.defs, d.ty.e) ELSE old.p)]
             ELSE Put(c, m, Tail(path), d.ty, old)
  IN [v EXCEPT !.f[path[1]] = new]

\* a member below an embedded pointer which decoding cannot allocate
RECURSIVE Closed(_, _, _), Stuck(_, _, _)
Closed(c, path, ty) ==
  LET d == c.defs[ty.id][path[1]] IN
  Len(path) > 1 /\ ((d.ty.t = "ptr" /\ ~ d.exp) \/ Closed(c, Tail(path), Deref(d.ty)))
Stuck(c, ty, v) ==
  CASE ty.t = "ptr" -> v.k = "ptr" /\ Stuck(c, ty.e, v.p)
    [] ty.t \in {"slice", "array"} -> v.k = "list" /\ \E i \in 1..Len(v.l) : Stuck(c, ty.e, v.l[i])
    [] ty.t = "map" -> v.k = "map" /\ \E i \in 1..Len(v.m) : Stuck(c, ty.e, v.m[i].mv)
    [] ty.t = "struct" -> LET ms == Members(c, ty, v) IN
         \E i \in 1..Len(ms) : Closed(c, ms[i].f.path, ty) \/ Stuck(c, ms[i].f.ty, ms[i].v)
    [] OTHER -> FALSE

\* a value, through its encoding, back into a fresh destination
RoundTripOK(r) ==
  LET c == [defs |-> Decls(r.defs), only |-> r.only] IN
  /\ Parse(r.y).ok
  /\ IF Stuck(c, r.ty, r.val) THEN r.out = "err"
     ELSE r.out = "ok" /\ r.v2 = Norm(c, r.ty, r.val)

\* a text, through an untyped value, to a text
RECURSIVE KeysValid(_)
KeysValid(v) ==
  CASE v.k = "aarr" -> \A i \in 1..Len(v.l) : KeysValid(v.l[i])
    [] v.k = "aobj" -> \A i \in 1..Len(v.m) : Sanitize(v.m[i].mk) = v.m[i].mk /\ KeysValid(v.m[i].mv)
    [] OTHER -> TRUE
TextTripOK(c, r) ==
  LET a == DecText(c, [t |-> "any"], vNil)
      b == DecText([c EXCEPT !.x = r.y], [t |-> "any"], vNil)
  IN IF a.r # "ok" THEN r.out = "err"
     ELSE /\ r.out = "ok" /\ b.r = "ok"
          /\ KeysValid(a.v) => b.v = SanAny(a.v)
=============================================================================
