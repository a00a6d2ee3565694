---------------------------- MODULE TypedDecode ----------------------------
(***************************************************************************)
(* Decoding a JSON value into a Go value of a given type.                  *)
(*                                                                         *)
(* Types (GoTypes):                                                        *)
(*   [t|->"bool"] [t|->"int", w, sg] [t|->"float", w] [t|->"string"]       *)
(*   [t|->"number"] (json.Number) [t|->"raw"] (json.RawMessage)            *)
(*   [t|->"any"] [t|->"ptr", e] [t|->"slice", e] [t|->"array", n, e]       *)
(*   [t|->"map", key, e] [t|->"struct", id]                                *)
(*   [t|->"jum"] a json.Unmarshaler  [t|->"tum"] an encoding.TextUnmarshaler*)
(*   [t|->"jumerr"], [t|->"tumerr"] the same, always failing               *)
(*                                                                         *)
(*   [t|->"bad"] a type which cannot be decoded (value [k|->"opq"])          *)
(*   [t|->"nodest"] no destination: a nil pointer or not a pointer          *)
(*   [t|->"iface"] an interface with methods (values as those of "any")    *)
(*   [t|->"disp", j, tx, reg, nty] a type with codecs: registered (reg),   *)
(*   UnmarshalJSON (j # "n"), UnmarshalText (tx # "n"); its values are     *)
(*   [k|->"disp", calls (of its codecs), nat (the value as a nty)]         *)
(*                                                                         *)
(* Values:                                                                 *)
(*   [k|->"bool", b] [k|->"int", d (decimal text)] [k|->"flt", x (bits)]   *)
(*   [k|->"str", s] [k|->"nil"] [k|->"ptr", p] [k|->"list", l]             *)
(*   [k|->"map", m (entries [mk, mv] sorted by mk)] [k|->"st", f]          *)
(*   [k|->"raw", r] [k|->"jum", calls] [k|->"tum", calls]                  *)
(*   inside "any": bool, flt, str, num [t], nil, [k|->"aobj", m],          *)
(*   [k|->"aarr", l], [k|->"aptr", at, ap] (a pointer to a typed value),   *)
(*   [k|->"opq"] (anything else), [k|->"loop", at] (a pointer which leads   *)
(*   back to this interface, or to a loop, through interfaces only)        *)
(*                                                                         *)
(* Dec(...) yields [r|->"ok", v], [r|->"err"] or [r|->"any"] where the     *)
(* outcome is deliberately left open (documented deviations).              *)
(***************************************************************************)
EXTENDS JsonParse, IntText, StructFields, Base64

Ok(v) == [r |-> "ok", v |-> v]
ErrR == [r |-> "err"]
OpenR == [r |-> "any"]

vNil == [k |-> "nil"]

------------------------------------------------------------------------------
RECURSIVE Zero(_, _)
Zero(defs, ty) ==
  CASE ty.t = "bool"   -> [k |-> "bool", b |-> FALSE]
    [] ty.t = "int"    -> [k |-> "int", d |-> <<48>>]
    [] ty.t = "float"  -> [k |-> "flt", x |-> <<48>>]
    [] ty.t = "string" -> [k |-> "str", s |-> <<>>]
    [] ty.t = "number" -> [k |-> "num", t |-> <<>>]
    [] ty.t = "raw"    -> vNil
    [] ty.t \in {"any", "ptr", "slice", "map"} -> vNil
    [] ty.t = "array"  -> [k |-> "list", l |-> [i \in 1..ty.n |-> Zero(defs, ty.e)]]
    [] ty.t = "struct" -> [k |-> "st", f |-> [i \in 1..Len(defs[ty.id]) |-> Zero(defs, defs[ty.id][i].ty)]]
    [] ty.t = "jum"    -> [k |-> "jum", calls |-> <<>>]
    [] ty.t = "tum"    -> [k |-> "tum", calls |-> <<>>]
    [] ty.t = "disp"   -> [k |-> "disp", calls |-> <<>>, nat |-> Zero(defs, ty.nty)]
    [] ty.t = "iface"  -> vNil
    [] OTHER -> [k |-> "opq"]

\* sorted insertion, replacing an entry of the same key
RECURSIVE Ins(_, _, _)
Ins(m, key, v) ==
  IF m = <<>> THEN << [mk |-> key, mv |-> v] >>
  ELSE IF m[1].mk = key THEN << [mk |-> key, mv |-> v] >> \o Tail(m)
  ELSE IF BLess(key, m[1].mk) THEN << [mk |-> key, mv |-> v] >> \o m
  ELSE << m[1] >> \o Ins(Tail(m), key, v)

\* the float denoted by a number text: fl is the environment's table of
\* entries [t |-> text, w |-> width, ok |-> in range?, x |-> bits]
FloatOf(fl, t, w) ==
  LET c == {i \in 1..Len(fl) : fl[i].t = t /\ fl[i].w = w} IN
  IF c = {} THEN [ok |-> FALSE, missing |-> TRUE] ELSE fl[CHOOSE i \in c : TRUE]

HasEsc(x, node) == node.e - node.b + 1 # Len(node.s) + 2

\* decimal text of a byte value
ByteText(n) == IF n < 10 THEN <<48 + n>>
               ELSE IF n < 100 THEN <<48 + (n \div 10), 48 + (n % 10)>>
               ELSE <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>

IsNumText(t) == t # <<>> /\ (t[1] = cMINUS \/ IsDigit(t[1])) /\ NumEnd(t, 1) = Len(t) + 1

------------------------------------------------------------------------------
(* Untyped decoding: what a nil interface{} becomes.                       *)
RECURSIVE Untyped(_, _, _), UntypedList(_, _, _, _), UntypedMembers(_, _, _, _, _)
Untyped(c, node, u) ==
  CASE node.k = "null"  -> Ok(vNil)
    [] node.k = "true"  -> Ok([k |-> "bool", b |-> TRUE])
    [] node.k = "false" -> Ok([k |-> "bool", b |-> FALSE])
    [] node.k = "str"   -> Ok([k |-> "str", s |-> node.s])
    [] node.k = "num"   -> IF u THEN Ok([k |-> "num", t |-> node.t])
                           ELSE LET f == FloatOf(c.fl, node.t, 64) IN
                                IF f.ok THEN Ok([k |-> "flt", x |-> f.x]) ELSE ErrR
    [] node.k = "arr"   -> UntypedList(c, node.l, u, <<>>)
    [] node.k = "obj"   -> UntypedMembers(c, node.m, u, 1, <<>>)
UntypedList(c, l, u, acc) ==
  IF Len(acc) = Len(l) THEN Ok([k |-> "aarr", l |-> acc])
  ELSE LET r == Untyped(c, l[Len(acc) + 1], u) IN
       IF r.r = "ok" THEN UntypedList(c, l, u, Append(acc, r.v)) ELSE r
UntypedMembers(c, m, u, i, acc) ==
  IF i > Len(m) THEN Ok([k |-> "aobj", m |-> acc])
  ELSE LET r == Untyped(c, m[i].v, u) IN
       IF r.r = "ok" THEN UntypedMembers(c, m, u, i + 1, Ins(acc, m[i].n, r.v)) ELSE r

------------------------------------------------------------------------------
(* Scalars *)
DecInt(ty, t) == IF IsIntText(t) /\ InRange(t, ty.w, ty.sg)
                    /\ (t = <<45, 48>> => ty.sg)
                 THEN Ok([k |-> "int", d |-> Canon(t)]) ELSE ErrR

DecFloat(c, ty, t) ==
  LET f == FloatOf(c.fl, t, ty.w) IN IF f.ok THEN Ok([k |-> "flt", x |-> f.x]) ELSE ErrR

\* scalars under the "string" tag option
DecQuoted(c, ty, node, prior) ==
  CASE node.k = "null" -> Ok(prior)
    [] ty.t = "string" ->
         IF node.k # "str" THEN ErrR
         ELSE IF node.s = sNULL THEN OpenR
         ELSE IF node.s = <<>> \/ node.s[1] # cQUOTE THEN ErrR
         ELSE LET p == Parse(node.s) IN
              IF p.ok /\ p.v.k = "str" /\ p.v.e = Len(node.s) THEN Ok([k |-> "str", s |-> p.v.s]) ELSE ErrR
    [] ty.t = "bool" ->
         IF node.k \in {"true", "false"} THEN OpenR
         ELSE IF node.k # "str" THEN ErrR
         ELSE IF HasEsc(c.x, node) \/ node.s = sNULL THEN OpenR
         ELSE IF node.s = sTRUE THEN Ok([k |-> "bool", b |-> TRUE])
         ELSE IF node.s = sFALSE THEN Ok([k |-> "bool", b |-> FALSE])
         ELSE IF node.s # <<>> /\ IsWS(node.s[1]) THEN OpenR
         ELSE ErrR
    [] ty.t = "int" ->
         IF node.k # "str" THEN ErrR
         ELSE IF HasEsc(c.x, node) \/ node.s = sNULL THEN OpenR
         ELSE DecInt(ty, node.s)
    [] ty.t = "float" ->
         IF node.k # "str" THEN ErrR
         ELSE IF HasEsc(c.x, node) \/ node.s = sNULL THEN OpenR
         ELSE IF IsNumText(node.s) THEN DecFloat(c, ty, node.s) ELSE ErrR
    [] OTHER -> OpenR

\* the codecs of "disp" types refuse these
RefusedIn(s) == \E i \in 1..(Len(s) - 1) : s[i] = 49 /\ s[i + 1] = 51
OwnErr == [r |-> "err", own |-> TRUE]

\* object keys as map keys: yields the key text
RECURSIVE DecKey(_, _)
DecKey(kty, mem) ==
  CASE kty.t = "string" -> Ok(mem.n)
    [] kty.t = "tum"    -> Ok(mem.n)
    [] kty.t = "int"    -> IF mem.kl # Len(mem.n) + 2 THEN OpenR
                           ELSE LET r == DecInt(kty, mem.n) IN
                                IF r.r = "ok" THEN Ok(r.v.d) ELSE r
    [] kty.t = "disp"   -> IF kty.tx # "n"
                           THEN IF RefusedIn(mem.n) THEN OwnErr ELSE Ok(<<84>> \o mem.n)
                           ELSE DecKey(kty.nty, mem)
    [] OTHER -> ErrR

------------------------------------------------------------------------------
RECURSIVE Dec(_, _, _, _, _), DecElems(_, _, _, _, _), DecArr(_, _, _, _, _),
          DecMap(_, _, _, _, _), DecSt(_, _, _, _, _), SetPath(_, _, _, _, _, _)

\* c: context [x, defs, fl, cs, duf, un, only];  q: "string" option in force
Dec(c, ty, node, prior, q) ==
  CASE ty.t = "ptr" ->
         IF node.k = "null" THEN Ok(vNil)
         ELSE LET r == Dec(c, ty.e, node, IF prior.k = "ptr" THEN prior.p ELSE Zero(c.defs, ty.e), q) IN
              IF r.r = "ok" THEN Ok([k |-> "ptr", p |-> r.v]) ELSE r
    [] ty.t = "jum" -> Ok([k |-> "jum", calls |-> Append(prior.calls, Raw(c.x, node))])
    [] ty.t = "jumerr" -> ErrR
    [] ty.t = "tum" ->
         CASE node.k = "null" -> Ok(prior)
           [] node.k = "str" -> Ok([k |-> "tum", calls |-> Append(prior.calls, node.s)])
           [] OTHER -> ErrR
    [] ty.t = "tumerr" -> IF node.k = "null" THEN Ok(prior) ELSE ErrR
    [] ty.t = "disp" ->
         LET call(by, b) == IF RefusedIn(b) THEN OwnErr
                            ELSE Ok([k |-> "disp", calls |-> Append(prior.calls, [by |-> by, b |-> b]), nat |-> vNil])
         IN CASE ty.reg -> call("R", Raw(c.x, node))
              [] ~ ty.reg /\ ty.j # "n" -> call("J", Raw(c.x, node))
              [] ~ ty.reg /\ ty.j = "n" /\ ty.tx # "n" ->
                   CASE node.k = "null" -> Ok(prior)
                     [] node.k = "str" -> call("T", node.s)
                     [] OTHER -> ErrR
              [] OTHER -> LET r == Dec(c, ty.nty, node, prior.nat, q) IN
                          IF r.r = "ok" THEN Ok([prior EXCEPT !.nat = r.v]) ELSE r
    [] ty.t = "iface" ->
         IF node.k = "null" THEN Ok(vNil)
         ELSE IF prior.k # "aptr" THEN ErrR
         ELSE LET r == Dec(c, prior.at, node, prior.ap, FALSE) IN
              IF r.r = "ok" THEN Ok([prior EXCEPT !.ap = r.v]) ELSE r
    [] ty.t = "bad" -> IF node.k = "null" THEN OpenR ELSE ErrR
    [] ty.t = "nodest" -> ErrR
    [] ty.t = "raw" -> Ok([k |-> "raw", r |-> Raw(c.x, node)])
    [] ty.t = "number" ->
         CASE node.k = "null" -> Ok(prior)
           [] node.k = "num" -> IF q THEN OpenR ELSE Ok([k |-> "num", t |-> node.t])
           [] node.k = "str" -> IF HasEsc(c.x, node) \/ node.s = sNULL THEN OpenR
                                ELSE IF IsNumText(node.s) THEN Ok([k |-> "num", t |-> node.s]) ELSE ErrR
           [] OTHER -> ErrR
    [] q /\ ty.t \in {"bool", "int", "float", "string"} -> DecQuoted(c, ty, node, prior)
    [] ty.t = "bool" ->
         CASE node.k = "null" -> Ok(prior)
           [] node.k = "true" -> Ok([k |-> "bool", b |-> TRUE])
           [] node.k = "false" -> Ok([k |-> "bool", b |-> FALSE])
           [] OTHER -> ErrR
    [] ty.t = "int" ->
         CASE node.k = "null" -> Ok(prior)
           [] node.k = "num" -> DecInt(ty, node.t)
           [] OTHER -> ErrR
    [] ty.t = "float" ->
         CASE node.k = "null" -> Ok(prior)
           [] node.k = "num" -> DecFloat(c, ty, node.t)
           [] OTHER -> ErrR
    [] ty.t = "string" ->
         CASE node.k = "null" -> Ok(prior)
           [] node.k = "str" -> Ok([k |-> "str", s |-> node.s])
           [] OTHER -> ErrR
    [] ty.t = "any" ->
         IF prior.k = "aptr"
         THEN IF node.k = "null"
              THEN IF prior.at.t = "ptr" THEN Ok([k |-> "aptr", at |-> prior.at, ap |-> vNil]) ELSE Ok(vNil)
              ELSE LET r == Dec(c, prior.at, node, prior.ap, FALSE) IN
                   IF r.r = "ok" THEN Ok([k |-> "aptr", at |-> prior.at, ap |-> r.v]) ELSE r
         ELSE IF prior.k = "loop"   \* interfaces which only lead to each other
         THEN IF node.k # "null" THEN ErrR
              ELSE IF prior.at.t = "ptr" THEN Ok([k |-> "aptr", at |-> prior.at, ap |-> vNil]) ELSE Ok(vNil)
         ELSE Untyped(c, node, c.un)
    [] ty.t = "slice" ->
         CASE node.k = "null" -> Ok(vNil)
           [] node.k = "arr" -> DecElems(c, ty.e, node.l, 1, <<>>)
           [] node.k = "str" /\ ty.e.t = "int" /\ ty.e.w = 8 /\ ~ ty.e.sg ->
                LET r == B64Decode(node.s) IN
                IF r.ok THEN Ok([k |-> "list", l |-> [i \in 1..Len(r.s) |-> [k |-> "int", d |-> ByteText(r.s[i])]]])
                ELSE ErrR
           [] node.k = "str" /\ ty.e.t = "disp" /\ LET u == Under(ty.e) IN u.t = "int" /\ u.w = 8 /\ ~ u.sg -> OpenR
           [] OTHER -> ErrR
    [] ty.t = "array" ->
         CASE node.k = "null" -> Ok(prior)
           [] node.k = "arr" -> DecArr(c, ty, node.l, prior, <<>>)
           [] OTHER -> ErrR
    [] ty.t = "map" ->
         CASE node.k = "null" -> Ok(vNil)
           [] node.k = "obj" -> DecMap(c, ty, node.m, 1, IF prior.k = "map" THEN prior.m ELSE <<>>)
           [] OTHER -> ErrR
    [] ty.t = "struct" ->
         CASE node.k = "null" -> Ok(prior)
           [] node.k = "obj" -> DecSt(c, Fields(c.defs, ty.id, c.only), node.m, 1, [ty |-> ty, v |-> prior])
           [] OTHER -> ErrR
    [] OTHER -> ErrR

\* slices are always built afresh
DecElems(c, e, l, i, acc) ==
  IF i > Len(l) THEN Ok([k |-> "list", l |-> acc])
  ELSE LET r == Dec(c, e, l[i], Zero(c.defs, e), FALSE) IN
       IF r.r = "ok" THEN DecElems(c, e, l, i + 1, Append(acc, r.v)) ELSE r

\* arrays: elements in place, surplus input ignored, missing ones zeroed
DecArr(c, ty, l, prior, acc) ==
  LET i == Len(acc) + 1 IN
  IF i > ty.n THEN Ok([k |-> "list", l |-> acc])
  ELSE IF i > Len(l) THEN DecArr(c, ty, l, prior, Append(acc, Zero(c.defs, ty.e)))
  ELSE LET r == Dec(c, ty.e, l[i], prior.l[i], FALSE) IN
       IF r.r = "ok" THEN DecArr(c, ty, l, prior, Append(acc, r.v)) ELSE r

\* maps: existing entries are kept, every decoded value is fresh, last wins
DecMap(c, ty, m, i, acc) ==
  IF i > Len(m) THEN Ok([k |-> "map", m |-> acc])
  ELSE LET kr == DecKey(ty.key, m[i]) IN
       IF kr.r # "ok" THEN kr
       ELSE LET r == Dec(c, ty.e, m[i].v, Zero(c.defs, ty.e), FALSE) IN
            IF r.r = "ok" THEN DecMap(c, ty, m, i + 1, Ins(acc, kr.v, r.v)) ELSE r

\* structs: members in order, each into the field its key selects
DecSt(c, fs, m, i, sv) ==
  IF i > Len(m) THEN Ok(sv.v)
  ELSE LET f == MatchKey(fs, m[i].n, c.cs) IN
       IF f = 0
       THEN IF c.duf THEN ErrR ELSE DecSt(c, fs, m, i + 1, sv)
       ELSE LET r == SetPath(c, fs[f], fs[f].path, sv.ty, sv.v, m[i].v) IN
            IF r.r = "ok" THEN DecSt(c, fs, m, i + 1, [sv EXCEPT !.v = r.v]) ELSE r

\* decode node into the field reached by path below the struct value v
SetPath(c, f, path, ty, v, node) ==
  LET d == c.defs[ty.id][path[1]] IN
  IF Len(path) = 1
  THEN LET r == Dec(c, d.ty, node, v.f[path[1]], f.q) IN
       IF r.r = "ok" THEN Ok([v EXCEPT !.f[path[1]] = r.v]) ELSE r
  ELSE IF d.ty.t = "ptr"
  THEN IF v.f[path[1]].k = "nil" /\ ~ d.exp THEN ErrR   \* cannot allocate
       ELSE LET sub == IF v.f[path[1]].k = "nil" THEN Zero(c.defs, d.ty.e) ELSE v.f[path[1]].p
                r == SetPath(c, f, Tail(path), d.ty.e, sub, node) IN
            IF r.r = "ok" THEN Ok([v EXCEPT !.f[path[1]] = [k |-> "ptr", p |-> r.v]]) ELSE r
  ELSE LET r == SetPath(c, f, Tail(path), d.ty, v.f[path[1]], node) IN
       IF r.r = "ok" THEN Ok([v EXCEPT !.f[path[1]] = r.v]) ELSE r

\* decoding a whole document
DecText(c, ty, prior) ==
  LET p == Parse(c.x) IN
  IF ~ p.ok THEN ErrR ELSE Dec(c, ty, p.v, prior, FALSE)
=============================================================================
