----------------------------- MODULE BankTrace ------------------------------
(* Histories of the real bank, recorded under a controlled scheduler *)
EXTENDS TraceLib, Bank
vars == <<l, cap, free, queue, ph, amt>>

Init == TraceStart /\ BankInit(0)

New ==
  /\ IsEvent("new")
  /\ cap' = Line.cap /\ free' = Line.cap /\ queue' = <<>>
  /\ ph' = [t \in Threads |-> "idle"] /\ amt' = [t \in Threads |-> 0]
EvB == IsEvent("b") /\ Borrow(Line.t, Line.n)
EvG == IsEvent("g") /\ Granted(Line.t, Line.n)
(* The request isn't granted when polled.  That's wrong if nobody else is busy,
   nobody is ahead, and there is enough credit *)
Waits(t) ==
  /\ ph[t] \in {"queued", "granted"}
  /\ Quiet(t) => ph[t] = "queued" /\ ~Servable(t)
  /\ UNCHANGED bvars
EvP == IsEvent("p") /\ Waits(Line.t)
EvR == IsEvent("r") /\ Line.ok /\ Repay(Line.t, Line.n)
EvRd == IsEvent("rd") /\ Repaid(Line.t)
EvX == IsEvent("x") /\ Abandon(Line.t)
EvXd == IsEvent("xd") /\ Abandoned(Line.t)
EvEnd ==
  /\ IsEvent("end") /\ Line.full
  /\ free = cap /\ (\A i \in DOMAIN queue : ~queue[i].live) /\ \A t \in Threads : ph[t] = "idle"
  /\ UNCHANGED bvars

Next ==
  \/ New \/ EvB \/ EvG \/ EvP \/ EvR \/ EvRd \/ EvX \/ EvXd \/ EvEnd
  \/ (l <= NTrace /\ Line.e # "new" /\ Internal /\ UNCHANGED l)
Spec == Init /\ [][Next]_vars
=============================================================================
