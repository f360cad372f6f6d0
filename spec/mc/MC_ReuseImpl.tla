----------------------------- MODULE MC_ReuseImpl -----------------------------
(* A variable that is read into in place, and what was read from it before.    *)
(* Cleared first (Reset), it always holds what a new one would; else not.      *)
EXTENDS Tpdus, Reuse

CONSTANTS Reset, Reads
VARIABLES v, n, fresh
Some == {t \in Delivers \cup Submits \cup Commands \cup Statuses \cup DReports \cup SReports :
           /\ Len(t.ud) \in {0, 2} /\ t.dcs \in {0, 4} /\ t.pi < 8 /\ t.fo % 64 < 34 /\ t.udh \in {<<>>, IE(2)}}
Input == {x \in {[dir |-> t.dir, b |-> Marshal(t).b] : t \in {t \in Some : Marshal(t).ok}} : Len(x.b) > 0}
Parsed == {p.t : p \in {Unmarshal(x.dir, x.b) : x \in Input}}
\* the refused ones leave some of what they were found to hold, and the rest as it was
InitR == part = 0 /\ input = None /\ v = ZeroTPDU /\ n = 0 /\ fresh = ZeroTPDU
Got(t) == v' = (IF Reset THEN ReadInto(v, t) ELSE Onto(v, t)) /\ fresh' = t
Cut(t) == \E f \in SUBSET {"oa", "mr", "pid", "dcs", "vp", "pi"} :
                /\ v' = [x \in DOMAIN v |-> IF x \in f THEN t[x] ELSE v[x]] /\ fresh' = v'
NextR == /\ n < Reads /\ n' = n + 1 /\ UNCHANGED <<part, input>>
         /\ \E t \in Parsed : Got(t) \/ (n = 0 /\ t.ud = <<>> /\ Cut(t))
AsNew == v = fresh
=============================================================================
