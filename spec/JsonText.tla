------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* The JSON text machine: a byte-level push-down automaton for RFC 8259.   *)
(*                                                                         *)
(* A configuration is a control state and a stack of markers:              *)
(*   "A" an open array, "O" an open object, "K" an object key being read.  *)
(* Step(ctl, top, b) consumes byte b when `top' is the top marker ("E" if  *)
(* the stack is empty) and yields the next control state and a stack       *)
(* operation ("-" none, "A"/"O"/"K" push, "P" pop).  The rejecting state   *)
(* is "err".                                                               *)
(*                                                                         *)
(* The machine is what the conformance harness executes: its transition    *)
(* relation is tabulated by TLC (module JsonTable) and interpreted next to *)
(* the real code, byte by byte.                                            *)
(***************************************************************************)
EXTENDS Bytes

Ctl == { "val",      \* a value is required
         "elem",     \* just after "[" : a value or "]"
         "key1",     \* just after "{" : a key or "}"
         "key",      \* after "," in an object : a key
         "colon",    \* after a key
         "end",      \* after a complete value
         "s", "esc", "u1", "u2", "u3", "u4",          \* inside a string
         "neg", "zero", "int", "dot", "frac", "exp", "esgn", "edig", \* number
         "t1", "t2", "t3", "f1", "f2", "f3", "f4", "n1", "n2", "n3",
         "err" }

Top == {"E", "A", "O", "K"}

\* the number read so far is complete
NumDone == {"zero", "int", "frac", "edig"}

To(c) == [c |-> c, op |-> "-"]
Push(m, c) == [c |-> c, op |-> m]
Pop(c) == [c |-> c, op |-> "P"]
Err == To("err")

StartValue(b) ==
  CASE b = cLBRC  -> Push("O", "key1")
    [] b = cLBRK  -> Push("A", "elem")
    [] b = cQUOTE -> To("s")
    [] b = cMINUS -> To("neg")
    [] b = cZERO  -> To("zero")
    [] IsDigit19(b) -> To("int")
    [] b = 116 -> To("t1")
    [] b = 102 -> To("f1")
    [] b = 110 -> To("n1")
    [] OTHER -> Err

AfterValue(top, b) ==
  CASE IsWS(b) -> To("end")
    [] top = "A" /\ b = cCOMMA -> To("val")
    [] top = "A" /\ b = cRBRK  -> Pop("end")
    [] top = "O" /\ b = cCOMMA -> To("key")
    [] top = "O" /\ b = cRBRC  -> Pop("end")
    [] OTHER -> Err

StartKey(b) == IF b = cQUOTE THEN Push("K", "s") ELSE Err

IsSimpleEsc(b) == b \in {34, 92, 47, 98, 102, 110, 114, 116}

Lit(b, want, next) == IF b = want THEN To(next) ELSE Err

Step(c, top, b) ==
  CASE c = "val"   -> IF IsWS(b) THEN To("val") ELSE StartValue(b)
    [] c = "elem"  -> IF IsWS(b) THEN To("elem")
                      ELSE IF b = cRBRK THEN Pop("end") ELSE StartValue(b)
    [] c = "key1"  -> IF IsWS(b) THEN To("key1")
                      ELSE IF b = cRBRC THEN Pop("end") ELSE StartKey(b)
    [] c = "key"   -> IF IsWS(b) THEN To("key") ELSE StartKey(b)
    [] c = "colon" -> IF IsWS(b) THEN To("colon")
                      ELSE IF b = cCOLON THEN To("val") ELSE Err
    [] c = "end"   -> AfterValue(top, b)
    [] c = "s"     -> CASE b = cQUOTE -> (IF top = "K" THEN Pop("colon") ELSE To("end"))
                        [] b = cBSL   -> To("esc")
                        [] b < 32     -> Err
                        [] OTHER      -> To("s")
    [] c = "esc"   -> IF IsSimpleEsc(b) THEN To("s") ELSE IF b = 117 THEN To("u1") ELSE Err
    [] c = "u1"    -> IF IsHex(b) THEN To("u2") ELSE Err
    [] c = "u2"    -> IF IsHex(b) THEN To("u3") ELSE Err
    [] c = "u3"    -> IF IsHex(b) THEN To("u4") ELSE Err
    [] c = "u4"    -> IF IsHex(b) THEN To("s") ELSE Err
    [] c = "neg"   -> IF b = cZERO THEN To("zero") ELSE IF IsDigit19(b) THEN To("int") ELSE Err
    [] c = "zero"  -> IF b = cDOT THEN To("dot") ELSE IF b \in {101, 69} THEN To("exp")
                      ELSE AfterValue(top, b)
    [] c = "int"   -> IF IsDigit(b) THEN To("int") ELSE IF b = cDOT THEN To("dot")
                      ELSE IF b \in {101, 69} THEN To("exp") ELSE AfterValue(top, b)
    [] c = "dot"   -> IF IsDigit(b) THEN To("frac") ELSE Err
    [] c = "frac"  -> IF IsDigit(b) THEN To("frac") ELSE IF b \in {101, 69} THEN To("exp")
                      ELSE AfterValue(top, b)
    [] c = "exp"   -> IF b \in {43, 45} THEN To("esgn") ELSE IF IsDigit(b) THEN To("edig") ELSE Err
    [] c = "esgn"  -> IF IsDigit(b) THEN To("edig") ELSE Err
    [] c = "edig"  -> IF IsDigit(b) THEN To("edig") ELSE AfterValue(top, b)
    [] c = "t1" -> Lit(b, 114, "t2")   [] c = "t2" -> Lit(b, 117, "t3")
    [] c = "t3" -> Lit(b, 101, "end")
    [] c = "f1" -> Lit(b, 97, "f2")    [] c = "f2" -> Lit(b, 108, "f3")
    [] c = "f3" -> Lit(b, 115, "f4")   [] c = "f4" -> Lit(b, 101, "end")
    [] c = "n1" -> Lit(b, 117, "n2")   [] c = "n2" -> Lit(b, 108, "n3")
    [] c = "n3" -> Lit(b, 108, "end")
    [] OTHER -> Err

TopOf(stk) == IF stk = <<>> THEN "E" ELSE stk[Len(stk)]

Apply(stk, op) ==
  CASE op = "-" -> stk
    [] op = "P" -> SubSeq(stk, 1, Len(stk) - 1)
    [] OTHER    -> Append(stk, op)

\* a complete text is accepted in this configuration
Accepting(c, stk) == stk = <<>> /\ (c = "end" \/ c \in NumDone)

RECURSIVE RunFrom(_, _, _, _)
RunFrom(s, i, c, stk) ==
  IF c = "err" \/ i > Len(s) THEN [c |-> c, stk |-> stk]
  ELSE LET r == Step(c, TopOf(stk), s[i])
       IN  RunFrom(s, i + 1, r.c, Apply(stk, r.op))

Run(s) == RunFrom(s, 1, "val", <<>>)
Accepts(s) == LET r == Run(s) IN Accepting(r.c, r.stk)

(***************************************************************************)
(* The same language, stated declaratively after the RFC 8259 grammar.     *)
(* s[i..j] (j = i-1 is the empty text).  Only used on short texts, to show *)
(* that the machine accepts exactly the language of the grammar.           *)
(***************************************************************************)
AllWS(s, i, j) == \A k \in i..j : IsWS(s[k])
AllDigits(s, i, j) == i <= j /\ \A k \in i..j : IsDigit(s[k])

GInt(s, i, j) == /\ AllDigits(s, i, j)
                 /\ (s[i] = cZERO => i = j)
GFracOpt(s, i, j) == j = i - 1 \/ (j > i /\ s[i] = cDOT /\ AllDigits(s, i + 1, j))
GExpOpt(s, i, j) ==
  \/ j = i - 1
  \/ /\ j > i /\ s[i] \in {101, 69}
     /\ \/ AllDigits(s, i + 1, j)
        \/ j > i + 1 /\ s[i + 1] \in {43, 45} /\ AllDigits(s, i + 2, j)
GNumber(s, i, j) ==
  i <= j /\ LET b == IF s[i] = cMINUS THEN i + 1 ELSE i IN
    \E m \in b..j : \E n \in m..j :
      GInt(s, b, m) /\ GFracOpt(s, m + 1, n) /\ GExpOpt(s, n + 1, j)

RECURSIVE GChars(_, _, _)
GChars(s, i, j) ==
  \/ j = i - 1
  \/ /\ i <= j
     /\ \/ s[i] >= 32 /\ s[i] # cQUOTE /\ s[i] # cBSL /\ GChars(s, i + 1, j)
        \/ s[i] = cBSL /\ i + 1 <= j /\ IsSimpleEsc(s[i + 1]) /\ GChars(s, i + 2, j)
        \/ /\ s[i] = cBSL /\ i + 5 <= j /\ s[i + 1] = 117
           /\ \A k \in (i + 2)..(i + 5) : IsHex(s[k])
           /\ GChars(s, i + 6, j)
GString(s, i, j) == j > i /\ s[i] = cQUOTE /\ s[j] = cQUOTE /\ GChars(s, i + 1, j - 1)

RECURSIVE GValue(_, _, _), GElems(_, _, _), GMembers(_, _, _)
GWsValueWs(s, i, j) ==
  \E a \in i..j : \E b \in a..j :
     AllWS(s, i, a - 1) /\ AllWS(s, b + 1, j) /\ GValue(s, a, b)
GElems(s, i, j) ==
  \/ GWsValueWs(s, i, j)
  \/ \E m \in i..j : s[m] = cCOMMA /\ GWsValueWs(s, i, m - 1) /\ GElems(s, m + 1, j)
GMember(s, i, j) ==
  \E a \in i..j : \E b \in a..j : \E c \in (b + 1)..j :
     /\ AllWS(s, i, a - 1) /\ GString(s, a, b) /\ AllWS(s, b + 1, c - 1)
     /\ s[c] = cCOLON /\ GWsValueWs(s, c + 1, j)
GMembers(s, i, j) ==
  \/ GMember(s, i, j)
  \/ \E m \in i..j : s[m] = cCOMMA /\ GMember(s, i, m - 1) /\ GMembers(s, m + 1, j)
GValue(s, i, j) ==
  i <= j /\
  CASE s[i] = cLBRC -> j > i /\ s[j] = cRBRC /\ (AllWS(s, i + 1, j - 1) \/ GMembers(s, i + 1, j - 1))
    [] s[i] = cLBRK -> j > i /\ s[j] = cRBRK /\ (AllWS(s, i + 1, j - 1) \/ GElems(s, i + 1, j - 1))
    [] s[i] = cQUOTE -> GString(s, i, j)
    [] s[i] = 116 -> SubSeq(s, i, j) = sTRUE
    [] s[i] = 102 -> SubSeq(s, i, j) = sFALSE
    [] s[i] = 110 -> SubSeq(s, i, j) = sNULL
    [] OTHER -> GNumber(s, i, j)
GText(s) == Len(s) > 0 /\ GWsValueWs(s, 1, Len(s))
=============================================================================
