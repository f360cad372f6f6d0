--------------------------- MODULE MC_CollectorImpl ---------------------------
(* The expiry as the implementation does it: a timer of each pipe fires, and   *)
(* only later does its cleanup get the lock, remove the pipe and then call the *)
(* handler; calls come between. This refines Collector, where an expiry is one *)
(* instant: it is that of the cleanup or, before, of the arrival of a segment  *)
(* that finds the timer fired.                                                 *)
EXTENDS Collector, TLC

CONSTANTS D, MaxTime, MaxCollects, Kinds

Pdu(id, ty, toa, addr, ref, n, q) ==
  [id |-> id, ty |-> ty, toa |-> toa, addr |-> addr, udh |-> <<[id |-> 0, d |-> <<ref, n, q>>]>>]
KindOf(x, id) ==
  CASE x = "a1" -> Pdu(id, 0, 145, <<49>>, 1, 2, 1)
    [] x = "a2" -> Pdu(id, 0, 145, <<49>>, 1, 2, 2)
    [] x = "b1" -> Pdu(id, 0, 145, <<49>>, 1, 3, 1)
    [] x = "b2" -> Pdu(id, 0, 145, <<49>>, 1, 3, 2)
    [] x = "b3" -> Pdu(id, 0, 145, <<49>>, 1, 3, 3)

VARIABLES pipes,   \* a sequence of all pipes made: [key, slots, due, timer, in,
                   \* fired: cleanups waiting for the lock, calls: of the handler to come]
          closed, at, now, n,
          got      \* the outcome of the last call: [p, res]
vars == <<pipes, closed, at, now, n, got>>
None == [p |-> <<>>, res |-> Res("", <<>>)]

Init == pipes = <<>> /\ closed = FALSE /\ at = 0 /\ now = 0 /\ n = 0 /\ got = None
In(k) == {i \in 1..Len(pipes) : pipes[i].in /\ pipes[i].key = k}
Arm == IF D = 0 THEN -1 ELSE now + D
CollectIt(x) ==
  /\ n < MaxCollects /\ n' = n + 1
  /\ LET p == KindOf(x, n + 1)
         q == ConcatInfo(p.udh).seqno
         is == In(KeyOf(p))
         i == CHOOSE i \in is : TRUE
         timer == IF D = 0 THEN "none" ELSE "armed"
         fresh == [key |-> KeyOf(p), slots |-> [Empty(p).slots EXCEPT ![q] = p.id],
                   due |-> Arm, timer |-> timer, in |-> TRUE, fired |-> 0, calls |-> 0]
         \* Stop tells that the timer had fired
         stopped == pipes[i].timer # "fired"
     IN IF closed THEN UNCHANGED pipes /\ got' = [p |-> p, res |-> Res("closed", <<>>)]
        ELSE IF is # {} /\ pipes[i].slots[q] # 0
        THEN UNCHANGED pipes /\ got' = [p |-> p, res |-> Res("dup", <<>>)]
        ELSE IF is # {} /\ stopped
        THEN LET s == [pipes[i].slots EXCEPT ![q] = p.id] IN
             IF Full(s)
             THEN /\ pipes' = [pipes EXCEPT ![i].slots = s, ![i].in = FALSE, ![i].timer = "stopped"]
                  /\ got' = [p |-> p, res |-> Res("", s)]
             ELSE /\ pipes' = [pipes EXCEPT ![i].slots = s, ![i].due = Arm, ![i].timer = timer]
                  /\ got' = [p |-> p, res |-> Res("", <<>>)]
        ELSE /\ pipes' = Append(IF is = {} THEN pipes ELSE [pipes EXCEPT ![i].in = FALSE], fresh)
             /\ got' = [p |-> p, res |-> Res("", <<>>)]
  /\ UNCHANGED <<closed, at, now>>
Fire(i) == /\ pipes[i].timer = "armed" /\ pipes[i].due <= now
           /\ pipes' = [pipes EXCEPT ![i].timer = "fired", ![i].fired = @ + 1]
           /\ got' = None /\ UNCHANGED <<closed, at, now, n>>
Cleanup(i) == /\ pipes[i].fired > 0
              /\ pipes' = [pipes EXCEPT ![i].fired = @ - 1, ![i].in = FALSE, ![i].calls = @ + 1]
              /\ got' = None /\ UNCHANGED <<closed, at, now, n>>
Handle(i) == /\ pipes[i].calls > 0
             /\ pipes' = [pipes EXCEPT ![i].calls = @ - 1]
             /\ got' = None /\ UNCHANGED <<closed, at, now, n>>
Close == /\ ~closed /\ closed' = TRUE /\ at' = now
         /\ pipes' = [i \in 1..Len(pipes) |-> IF pipes[i].in /\ pipes[i].timer = "armed"
                                              THEN [pipes[i] EXCEPT !.timer = "stopped"] ELSE pipes[i]]
         /\ got' = None /\ UNCHANGED <<now, n>>
Tick == now < MaxTime /\ now' = now + 1 /\ got' = None /\ UNCHANGED <<pipes, closed, at, n>>
Next == \/ \E x \in Kinds : CollectIt(x)
        \/ \E i \in 1..Len(pipes) : Fire(i) \/ Cleanup(i) \/ Handle(i)
        \/ Close \/ Tick
Spec == Init /\ [][Next]_vars

\* the abstract state
Abs == [closed |-> closed, at |-> at,
        pool |-> {[key |-> pipes[i].key, slots |-> pipes[i].slots, due |-> pipes[i].due] :
                     i \in {i \in 1..Len(pipes) : pipes[i].in}},
        \* expired, and not yet with the handler
        out |-> {<<pipes[i].slots, 1>> : i \in {i \in 1..Len(pipes) : ~pipes[i].in /\ pipes[i].fired + pipes[i].calls > 0}}]
\* the states after any expiries
After == {Abs} \cup {ExpireStep(Abs, m, TRUE) : m \in {m \in Abs.pool : MayExpire(Abs, m, now)}}
AbsStep ==
  \/ Abs' = Abs
  \/ got'.p # <<>> /\ \E s \in After : \E c \in CollectSteps(s, got'.p, now, D) :
         c.st = Abs' /\ c.res = got'.res
  \/ \E m \in Abs.pool : MayExpire(Abs, m, now) /\ Abs' = ExpireStep(Abs, m, TRUE)
  \/ \E o \in Abs.out : Abs' = HandleStep(Abs, o[1])
  \/ Abs' = CloseStep(Abs, now)
\* a call that changes nothing must still be allowed to have that outcome
OutcomeOk == got'.p # <<>> => \E s \in After : \E c \in CollectSteps(s, got'.p, now, D) :
                                  c.st = Abs' /\ c.res = got'.res
Refines == [][AbsStep /\ OutcomeOk]_vars
CleanupOnce == \A i \in 1..Len(pipes) : pipes[i].fired + pipes[i].calls <= 1
OnePipe == \A i, h \in 1..Len(pipes) : pipes[i].in /\ pipes[h].in /\ i # h => pipes[i].key # pipes[h].key
=============================================================================
