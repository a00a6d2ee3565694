---------------------------- MODULE TypedEncode ----------------------------
(***************************************************************************)
(* Encoding a Go value: which JSON texts denote it.                        *)
(*                                                                         *)
(* Types and values are those of TypedDecode, and                          *)
(*   [t|->"bad"] a type which cannot be encoded (value [k|->"opq"])        *)
(*   [t|->"jm"]  a json.Marshaler, value [k|->"jm", r, fails]              *)
(*   [t|->"tm"]  an encoding.TextMarshaler, value [k|->"tm", s, fails]     *)
(*   [t|->"disp", j, tx, reg, adr, via, nty] with codecs, see Dispatch     *)
(*   [t|->"mif", via, open] json.Marshaler or encoding.TextMarshaler        *)
(*   inside "any": nil or [k|->"adyn", at (dynamic type), av (value)]      *)
(*                                                                         *)
(* EncMatch(c, ty, v, node, q): the node of the text c.y denotes v;        *)
(* Errs(c, ty, v): v cannot be encoded.                                    *)
(* c: [y, defs, fl, esc, only]                                             *)
(***************************************************************************)
EXTENDS TypedDecode

------------------------------------------------------------------------------
(* Strings *)

\* every byte which is not part of valid UTF-8 becomes U+FFFD
RECURSIVE FlattenUtf8(_, _, _)
FlattenUtf8(rs, i, acc) == IF i > Len(rs) THEN acc ELSE FlattenUtf8(rs, i + 1, acc \o Utf8(rs[i]))
AllAscii(s) == \A i \in 1..Len(s) : s[i] < 128
Sanitize(s) == IF AllAscii(s) THEN s ELSE FlattenUtf8(Runes(s, 1), 1, <<>>)

HtmlChar == {60, 62, 38}
CountIn(s, S) == Cardinality({i \in 1..Len(s) : s[i] \in S})

\* the literal lit (with its quotes), which denotes s, is escaped as it should
LitOK(lit, s, esc) ==
  /\ \A i \in 1..(Len(lit) - 2) : ~ (lit[i] = 226 /\ lit[i + 1] = 128 /\ lit[i + 2] \in {168, 169})
  /\ \A i \in 1..Len(lit) : lit[i] >= 32
  /\ IF esc THEN CountIn(lit, HtmlChar) = 0
            ELSE CountIn(lit, HtmlChar) = CountIn(s, HtmlChar)

\* node is a string literal of y which denotes s
StrMatch(y, node, s, esc) ==
  /\ node.k = "str"
  /\ node.s = Sanitize(s)
  /\ LitOK(Raw(y, node), node.s, esc)

------------------------------------------------------------------------------
(* Numbers *)
HexDig(b) == HexVal(b)
FiniteBits(x, w) ==
  IF w = 64
  THEN ~ (Len(x) = 16 /\ x[1] \in {55, 102} /\ x[2] = 102 /\ x[3] = 102)
  ELSE ~ (Len(x) = 8 /\ x[1] \in {55, 102} /\ x[2] = 102 /\ HexDig(x[3]) >= 8)

\* the number text t reads as the float with bits x (the environment's table)
FloatIs(c, t, w, x) == \E i \in 1..Len(c.fl) : c.fl[i].t = t /\ c.fl[i].w = w /\ c.fl[i].ok /\ c.fl[i].x = x

------------------------------------------------------------------------------
------------------------------------------------------------------------------
(* Dispatch.  A type [t|->"disp"] has the underlying type nty and           *)
(* MarshalJSON (j) and MarshalText (tx), each "n" (no), "v" (with a value   *)
(* receiver) or "p" (with a pointer receiver); reg: a codec is registered   *)
(* for it.  adr: the value is reached through a pointer or is an element of *)
(* a slice, an array or a struct, where pointer receivers count.            *)
(* Its values are [k|->"disp", s (what the codecs show), nat (as nty)].     *)
Adr(ty) == IF ty.t = "disp" THEN [ty EXCEPT !.adr = TRUE] ELSE ty
\* what an interface of the type json.Marshaler (encoding.TextMarshaler)
\* holds is encoded by its MarshalJSON (MarshalText); for other interfaces
\* which have these methods it is left open whether the type of the value
\* decides
RECURSIVE Via(_, _)
Via(ty, via) == CASE ty.t = "disp" -> [ty EXCEPT !.via = via]
                  [] ty.t = "ptr"  -> [ty EXCEPT !.e = Via(ty.e, via)]
                  [] OTHER -> ty
Has(m, adr) == m = "v" \/ (m = "p" /\ adr)
DispBy(ty) == IF ty.via # "" THEN ty.via
              ELSE IF ty.reg THEN "R"
              ELSE IF Has(ty.j, ty.adr) THEN "J"
              ELSE IF Has(ty.tx, ty.adr) THEN "T"
              ELSE "N"
cR == 82  cJ == 74  cT == 84
\* what the codecs refuse
Refused(s) == Len(s) >= 2 /\ s[1] = 49 /\ s[2] = 51

\* the type which decides the form of a value
RECURSIVE Native(_)
Native(ty) == IF ty.t = "disp" /\ DispBy(ty) = "N" THEN Native(Adr(ty.nty)) ELSE ty

\* the value below the codecs
RECURSIVE UnderV(_, _)
UnderV(ty, v) == IF ty.t = "disp" THEN UnderV(ty.nty, v.nat) ELSE v

IsBytes(ty) == ty.t = "slice" /\ LET e == Native(Adr(ty.e)) IN e.t = "int" /\ e.w = 8 /\ ~ e.sg

\* map keys: string kinds, then text marshalers, then integers
\* (pointers to a type with MarshalText, too; nil pointers are written <<0>>
\* and become empty; "mif" keys are interfaces with MarshalText, whose texts
\* are those of the values they hold)
KeyByText(kty) == \/ kty.t = "disp" /\ Under(kty).t # "string" /\ kty.tx = "v"
                  \/ kty.t = "ptr" /\ kty.e.t = "disp" /\ kty.e.tx # "n"
                  \/ kty.t = "mif"
KeyBad(kty) == \/ kty.t = "disp" /\ Under(kty).t \notin {"string", "int"} /\ ~ KeyByText(kty)
               \/ kty.t = "ptr" /\ ~ KeyByText(kty)
KeyText(kty, s) == IF ~ KeyByText(kty) THEN s ELSE IF s = <<0>> THEN <<>> ELSE <<cT>> \o s
KeyRefused(kty, s) == KeyByText(kty) /\ Refused(s)

ByteOf(d) == CASE Len(d) = 1 -> d[1] - 48
               [] Len(d) = 2 -> (d[1] - 48) * 10 + d[2] - 48
               [] OTHER -> ((d[1] - 48) * 10 + d[2] - 48) * 10 + d[3] - 48

\* what the registered codecs call empty: values which show as 7... (C24)
RegEmpty(s) == s # <<>> /\ s[1] = 55

RECURSIVE IsEmptyV(_, _)
IsEmptyV(ty, v) ==
  CASE ty.t = "bool"   -> ~ v.b
    [] ty.t = "int"    -> v.d = <<48>>
    [] ty.t = "float"  -> v.x = <<48>> \/ v.x = <<56>> \o [i \in 1..(ty.w \div 4 - 1) |-> 48]   \* 0 and -0
    [] ty.t = "string" -> v.s = <<>>
    [] ty.t = "number" -> v.t = <<>>
    [] ty.t = "raw"    -> v.k = "nil" \/ v.r = <<>>
    [] ty.t \in {"ptr", "any", "mif"} -> v.k = "nil"
    [] ty.t = "slice"  -> v.k = "nil" \/ v.l = <<>>
    [] ty.t = "map"    -> v.k = "nil" \/ v.m = <<>>
    [] ty.t = "array"  -> ty.n = 0
    [] ty.t \in {"jm", "tm"} -> v.empty
    [] ty.t = "disp" -> LET by == DispBy(Adr(ty)) IN
                        IF by = "R" THEN RegEmpty(v.s)
                        ELSE IF by = "N" THEN IsEmptyV(ty.nty, v.nat)
                        ELSE IsEmptyV(Under(ty), UnderV(ty, v))
    [] OTHER -> FALSE

\* the value at path below the struct value v, or [ok |-> FALSE] when an
\* embedded pointer on the way is nil
RECURSIVE Reach(_, _)
Reach(v, path) ==
  LET w == IF v.k = "ptr" THEN v.p ELSE v IN
  IF path = <<>> THEN [ok |-> TRUE, v |-> v]
  ELSE IF w.k = "nil" THEN [ok |-> FALSE]
  ELSE Reach(w.f[path[1]], Tail(path))

\* the members a struct value has: [f |-> field, v |-> value]
RECURSIVE MembersFrom(_, _, _, _)
MembersFrom(fs, v, i, acc) ==
  IF i > Len(fs) THEN acc
  ELSE LET r == Reach(v, fs[i].path) IN
       MembersFrom(fs, v, i + 1,
         IF r.ok /\ ~ (fs[i].om /\ IsEmptyV(fs[i].ty, r.v)) THEN Append(acc, [f |-> fs[i], v |-> r.v]) ELSE acc)
Members(c, ty, v) == MembersFrom(Fields(c.defs, ty.id, c.only), v, 1, <<>>)

------------------------------------------------------------------------------
RECURSIVE ErrsX(_, _, _, _)
\* own: also where a codec refuses a value
ErrsX(c, ty, v, own) ==
  CASE ty.t = "bad" -> TRUE
    [] ty.t = "float" -> ~ FiniteBits(v.x, ty.w)
    [] ty.t = "ptr" -> v.k = "ptr" /\ ErrsX(c, Adr(ty.e), v.p, own)
    [] ty.t = "any" -> v.k = "adyn" /\ ErrsX(c, v.at, v.av, own)
    [] ty.t = "mif" -> v.k = "adyn" /\ ErrsX(c, Via(v.at, ty.via), v.av, own)
    [] ty.t \in {"slice", "array"} -> v.k = "list" /\ \E i \in 1..Len(v.l) : ErrsX(c, Adr(ty.e), v.l[i], own)
    [] ty.t = "map" -> \/ KeyBad(ty.key)
                       \/ v.k = "map" /\ \E i \in 1..Len(v.m) : ErrsX(c, ty.e, v.m[i].mv, own) \/ (own /\ KeyRefused(ty.key, v.m[i].mk))
    [] ty.t = "struct" -> LET ms == Members(c, ty, v) IN \E i \in 1..Len(ms) : ErrsX(c, Adr(ms[i].f.ty), ms[i].v, own)
    [] ty.t \in {"jm", "tm"} -> own /\ v.fails
    [] ty.t = "disp" -> IF DispBy(ty) = "N" THEN ErrsX(c, ty.nty, v.nat, own) ELSE own /\ Refused(v.s)
    [] OTHER -> FALSE

Errs(c, ty, v) == ErrsX(c, ty, v, TRUE)
Unsupported(c, ty, v) == ErrsX(c, ty, v, FALSE)

\* a nil pointer (or nil slice ...) to a type which cannot be encoded: whether
\* that is null or an error is left open
RECURSIVE OpenErr(_, _, _)
RECURSIVE BadBelow(_)
BadBelow(ty) == CASE ty.t = "bad" -> TRUE
                  [] ty.t = "ptr" -> BadBelow(Adr(ty.e))
                  [] ty.t = "map" -> KeyBad(ty.key)
                  [] ty.t = "disp" -> DispBy(ty) = "N" /\ BadBelow(ty.nty)
                  [] OTHER -> FALSE
OpenErr(c, ty, v) ==
  CASE ty.t = "ptr" -> (v.k = "nil" /\ BadBelow(Adr(ty.e))) \/ (v.k = "ptr" /\ OpenErr(c, ty.e, v.p))
    [] ty.t = "any" -> v.k = "adyn" /\ OpenErr(c, v.at, v.av)
    [] ty.t \in {"slice", "array"} -> v.k = "list" /\ \E i \in 1..Len(v.l) : OpenErr(c, ty.e, v.l[i])
    [] ty.t = "map" -> v.k = "map" /\ \E i \in 1..Len(v.m) : OpenErr(c, ty.e, v.m[i].mv)
    [] ty.t = "struct" -> \/ LET ms == Members(c, ty, v) IN \E i \in 1..Len(ms) : OpenErr(c, ms[i].f.ty, ms[i].v)
                          \/ LET fs == Fields(c.defs, ty.id, c.only) IN \E i \in 1..Len(fs) : fs[i].om /\ BadBelow(Adr(fs[i].ty))
    [] OTHER -> FALSE

------------------------------------------------------------------------------
RECURSIVE EncMatch(_, _, _, _, _), MapMatch(_, _, _, _, _, _)
EncMatch(c, ty, v, node, q) ==
  CASE ty.t = "ptr" -> IF v.k = "nil" THEN node.k = "null" ELSE EncMatch(c, Adr(ty.e), v.p, node, q)
    [] ty.t = "any" -> IF v.k = "nil" THEN node.k = "null" ELSE EncMatch(c, v.at, v.av, node, FALSE)
    [] ty.t = "mif" -> IF v.k = "nil" THEN node.k = "null"
                       ELSE \/ EncMatch(c, Via(v.at, ty.via), v.av, node, FALSE)
                            \/ ty.open /\ EncMatch(c, v.at, v.av, node, FALSE)
    [] ty.t = "bool" ->
         IF q THEN node.k = "str" /\ node.s = (IF v.b THEN sTRUE ELSE sFALSE)
         ELSE node.k = (IF v.b THEN "true" ELSE "false")
    [] ty.t = "int" ->
         IF q THEN node.k = "str" /\ node.s = v.d ELSE node.k = "num" /\ node.t = v.d
    [] ty.t = "float" ->
         IF q THEN node.k = "str" /\ FloatIs(c, node.s, ty.w, v.x)
         ELSE node.k = "num" /\ FloatIs(c, node.t, ty.w, v.x)
    [] ty.t = "string" ->
         IF q
         THEN /\ node.k = "str"
              /\ LitOK(Raw(c.y, node), node.s, c.esc)
              /\ LET p == Parse(node.s) IN
                 p.ok /\ p.v.k = "str" /\ p.v.b = 1 /\ StrMatch(node.s, p.v, v.s, c.esc)
         ELSE StrMatch(c.y, node, v.s, c.esc)
    [] ty.t = "number" ->
         LET t == IF v.t = <<>> THEN <<48>> ELSE v.t IN
         IF q THEN node.k = "str" /\ node.s = t ELSE node.k = "num" /\ node.t = t
    [] ty.t = "raw" -> IF v.k = "nil" THEN node.k = "null" ELSE Raw(c.y, node) = v.r
    [] ty.t = "jm" -> Raw(c.y, node) = v.r
    [] ty.t = "tm" -> StrMatch(c.y, node, v.s, c.esc)
    [] ty.t = "disp" ->
         LET by == DispBy(ty) IN
         CASE by = "N" -> EncMatch(c, ty.nty, v.nat, node, q)
           [] by = "T" -> StrMatch(c.y, node, <<cT>> \o v.s, c.esc)
           [] OTHER -> /\ node.k = "arr" /\ Len(node.l) = 2
                       /\ node.l[1].k = "str" /\ node.l[1].s = (IF by = "R" THEN <<cR>> ELSE <<cJ>>)
                       /\ StrMatch(c.y, node.l[2], v.s, by = "R" /\ c.esc)
    [] ty.t = "slice" ->
         IF v.k = "nil" THEN node.k = "null"
         ELSE IF IsBytes(ty)
         THEN node.k = "str" /\ node.s = B64Encode([i \in 1..Len(v.l) |-> ByteOf(UnderV(ty.e, v.l[i]).d)])
         ELSE /\ node.k = "arr" /\ Len(node.l) = Len(v.l)
              /\ \A i \in 1..Len(v.l) : EncMatch(c, Adr(ty.e), v.l[i], node.l[i], FALSE)
    [] ty.t = "array" ->
         /\ node.k = "arr" /\ Len(node.l) = Len(v.l)
         /\ \A i \in 1..Len(v.l) : EncMatch(c, Adr(ty.e), v.l[i], node.l[i], FALSE)
    [] ty.t = "map" ->
         IF v.k = "nil" THEN node.k = "null"
         ELSE /\ node.k = "obj" /\ Len(node.m) = Len(v.m)
              /\ MapMatch(c, ty, v.m, node.m, 1, {})
    [] ty.t = "struct" ->
         LET ms == Members(c, ty, v) IN
         /\ node.k = "obj" /\ Len(node.m) = Len(ms)
         /\ \A i \in 1..Len(ms) :
              /\ node.m[i].n = ms[i].f.n
              /\ LitOK(SubSeq(c.y, node.m[i].kb, node.m[i].kb + node.m[i].kl - 1), node.m[i].n, c.esc)
              /\ EncMatch(c, Adr(ms[i].f.ty), ms[i].v, node.m[i].v, ms[i].f.q)
    [] OTHER -> FALSE

\* every entry has its own member, in any order
MapMatch(c, ty, es, mem, i, used) ==
  IF i > Len(es) THEN TRUE
  ELSE LET key == Sanitize(KeyText(ty.key, es[i].mk))
           js == {j \in 1..Len(mem) : j \notin used /\ mem[j].n = key
                    /\ LitOK(SubSeq(c.y, mem[j].kb, mem[j].kb + mem[j].kl - 1), key, c.esc)
                    /\ EncMatch(c, ty.e, es[i].mv, mem[j].v, FALSE)}
       IN js # {} /\ MapMatch(c, ty, es, mem, i + 1, used \cup {CHOOSE j \in js : TRUE})

\* outcome and text of encoding v
EncOutcome(c, ty, v, out, y) ==
  IF Errs(c, ty, v) THEN out = "err" /\ y = <<>>
  ELSE IF OpenErr(c, ty, v) THEN (out = "err" /\ y = <<>>) \/ (out = "ok" /\ Parse(y).ok)
  ELSE /\ out = "ok"
       /\ LET p == Parse(y) IN p.ok /\ EncMatch(c, ty, v, p.v, FALSE)
=============================================================================
