---------------------------- MODULE MC_JsonText ----------------------------
(* The machine of JsonText accepts exactly the grammar's language, and the *)
(* parser of JsonParse is defined exactly on it: checked on every text up  *)
(* to MaxLen over one representative byte per character class.             *)
EXTENDS JsonParse, FiniteSets
CONSTANTS MaxLen, Alphabet

VARIABLES txt, ctl, stk
vars == <<txt, ctl, stk>>

Init == txt = <<>> /\ ctl = "val" /\ stk = <<>>
Next == /\ Len(txt) < MaxLen
        /\ \E b \in Alphabet :
             LET r == Step(ctl, TopOf(stk), b) IN
             /\ txt' = Append(txt, b)
             /\ ctl' = r.c
             /\ stk' = Apply(stk, r.op)
Spec == Init /\ [][Next]_vars

TypeOK == ctl \in Ctl /\ \A i \in 1..Len(stk) : stk[i] \in {"A", "O", "K"}
\* a key marker is only ever on top, and sits on an open object
KeyOnTop == \A i \in 1..Len(stk) : stk[i] = "K" =>
               i = Len(stk) /\ i > 1 /\ stk[i - 1] = "O" /\ ctl \in {"s", "esc", "u1", "u2", "u3", "u4", "err"}
MachineIsGrammar == Accepting(ctl, stk) <=> GText(txt)
ParserIsMachine  == Parse(txt).ok <=> Accepting(ctl, stk)
\* once rejected, no continuation is accepted (errors are permanent)
Dead == ctl = "err" => ~ GText(txt)
=============================================================================
