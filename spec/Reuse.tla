-------------------------------- MODULE Reuse --------------------------------
(* Variables that are read into again and again. Octets say which fields of a  *)
(* TPDU there are: a reader that works in place writes these, and the variable *)
(* is as if it were new only if the others are made zero first.                *)
EXTENDS Tpdu

Always == {"dir", "fo"}
Data(t) == {"udh", "ud"}
Chosen(t) == (IF PiPID(t.pi) THEN {"pid"} ELSE {}) \cup (IF PiDCS(t.pi) THEN {"dcs"} ELSE {})
             \cup (IF PiUDL(t.pi) THEN Data(t) ELSE {})
\* the fields of a TPDU as read
Written(t) ==
  LET ty == TypeOf(t.fo, t.dir)
  IN Always \cup
     CASE ty = DELIVER -> {"oa", "pid", "dcs", "scts"} \cup Data(t)
       [] ty = SUBMIT -> {"mr", "da", "pid", "dcs", "vp"} \cup Data(t)
       [] ty = COMMAND -> {"mr", "pid", "ct", "mn", "da", "dcs"} \cup Data(t)
       [] ty = STATUSREPORT -> {"mr", "ra", "scts", "dt", "st", "pi"} \cup Chosen(t)
       [] ty = DELIVERREPORT -> {"fcs", "pi"} \cup Chosen(t)
       [] ty = SUBMITREPORT -> {"fcs", "pi", "scts"} \cup Chosen(t)
\* the variable v after a read in place that found t
Onto(v, t) == [f \in DOMAIN v |-> IF f \in Written(t) THEN t[f] ELSE v[f]]
\* and with v cleared before, but for the direction, which the caller sets
ReadInto(v, t) == Onto([ZeroTPDU EXCEPT !.dir = v.dir], t)
=============================================================================
