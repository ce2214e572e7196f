------------------------------- MODULE Deadlock -------------------------------
(* How operations reserve space in the writeback cache.  An operation borrows *)
(* credit for the most dirty data it may create, works within a transaction,  *)
(* leaves some of its credit with what it dirtied and gives the rest back.    *)
(* Only flushing gives the former back; that happens now and then, and in     *)
(* every sync.  A sync excludes everything else (the transaction lock).       *)
(*                                                                            *)
(* No operation may wait forever, whatever the others do (BorrowFirst), and   *)
(* however much it wants (Clamp).                                             *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Tasks,        \* tasks, each performing one operation at a time
          Ops,          \* how many operations each performs
          Capacity,     \* of the writeback cache
          Wants,        \* how much credit an operation may want
          BorrowFirst,  \* borrow before entering a transaction (FALSE: after)
          Clamp         \* never want more than there can be
VARIABLES pc, want, has, left, supply, queue, dirty, readers, writer, syncer
vars == <<pc, want, has, left, supply, queue, dirty, readers, writer, syncer>>

Min(a, b) == IF a < b THEN a ELSE b
Init ==
  /\ pc = [t \in Tasks |-> "idle"] /\ want = [t \in Tasks |-> 0]
  /\ has = [t \in Tasks |-> 0] /\ left = [t \in Tasks |-> Ops]
  /\ supply = Capacity /\ queue = <<>> /\ dirty = 0
  /\ readers = {} /\ writer = FALSE /\ syncer = "idle"

First == IF BorrowFirst THEN "borrow" ELSE "enter"
Second == IF BorrowFirst THEN "enter" ELSE "borrow"
After(s) == IF s = First THEN Second ELSE "work"

Start(t) == /\ pc[t] = "idle" /\ left[t] > 0
            /\ \E w \in Wants : want' = [want EXCEPT ![t] = IF Clamp THEN Min(w, Capacity) ELSE w]
            /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ pc' = [pc EXCEPT ![t] = First]
            /\ UNCHANGED <<has, supply, queue, dirty, readers, writer, syncer>>
\* First come, first served
Borrow(t) == /\ pc[t] = "borrow"
             /\ IF supply >= want[t] /\ queue = <<>>
                THEN /\ supply' = supply - want[t] /\ has' = [has EXCEPT ![t] = want[t]]
                     /\ pc' = [pc EXCEPT ![t] = After("borrow")] /\ UNCHANGED queue
                ELSE /\ queue' = Append(queue, t) /\ pc' = [pc EXCEPT ![t] = "asleep"]
                     /\ UNCHANGED <<supply, has>>
             /\ UNCHANGED <<want, left, dirty, readers, writer, syncer>>
Wake == /\ queue # <<>> /\ supply >= want[Head(queue)]
        /\ LET t == Head(queue) IN
           /\ supply' = supply - want[t] /\ has' = [has EXCEPT ![t] = want[t]]
           /\ pc' = [pc EXCEPT ![t] = After("borrow")]
        /\ queue' = Tail(queue)
        /\ UNCHANGED <<want, left, dirty, readers, writer, syncer>>
Enter(t) == /\ pc[t] = "enter" /\ ~writer
            /\ readers' = readers \cup {t}
            /\ pc' = [pc EXCEPT ![t] = After("enter")]
            /\ UNCHANGED <<want, has, left, supply, queue, dirty, writer, syncer>>
\* Any part of the credit may stay with dirty data
Work(t) == /\ pc[t] = "work"
           /\ \E d \in {0, 1, has[t]} :
              /\ d <= has[t]
              /\ dirty' = dirty + d /\ supply' = supply + has[t] - d
           /\ has' = [has EXCEPT ![t] = 0]
           /\ readers' = readers \ {t}
           /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<want, left, queue, writer, syncer>>

SyncStart == /\ syncer = "idle" /\ dirty > 0 /\ syncer' = "sync"
             /\ UNCHANGED <<pc, want, has, left, supply, queue, dirty, readers, writer>>
SyncLock == /\ syncer = "sync" /\ readers = {} /\ writer' = TRUE /\ syncer' = "syncing"
            /\ UNCHANGED <<pc, want, has, left, supply, queue, dirty, readers>>
SyncEnd == /\ syncer = "syncing" /\ writer' = FALSE /\ syncer' = "idle"
           /\ supply' = supply + dirty /\ dirty' = 0
           /\ UNCHANGED <<pc, want, has, left, queue, readers>>
FlushStart == /\ syncer = "idle" /\ dirty > 0 /\ ~writer /\ syncer' = "flushing"
              /\ readers' = readers \cup {"syncer"}
              /\ UNCHANGED <<pc, want, has, left, supply, queue, dirty, writer>>
FlushEnd == /\ syncer = "flushing" /\ syncer' = "idle"
            /\ readers' = readers \ {"syncer"}
            /\ supply' = supply + dirty /\ dirty' = 0
            /\ UNCHANGED <<pc, want, has, left, queue, writer>>

Done == /\ \A t \in Tasks : pc[t] = "idle" /\ left[t] = 0
        /\ syncer = "idle" /\ UNCHANGED vars
Next == \/ \E t \in Tasks : Start(t) \/ Borrow(t) \/ Enter(t) \/ Work(t)
        \/ Wake \/ SyncStart \/ SyncLock \/ SyncEnd \/ FlushStart \/ FlushEnd \/ Done
Fair == /\ \A t \in Tasks : WF_vars(Borrow(t)) /\ WF_vars(Enter(t)) /\ WF_vars(Work(t))
        /\ WF_vars(Wake) /\ WF_vars(SyncLock) /\ WF_vars(SyncEnd) /\ WF_vars(FlushEnd)
        /\ WF_vars(SyncStart \/ FlushStart)
Spec == Init /\ [][Next]_vars /\ Fair

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
\* Credit is neither lost nor created
Conserved == supply + dirty + Sum(has, Tasks) = Capacity /\ supply >= 0
\* The lock excludes
Excluded == writer => readers = {}
\* Everything finishes
Progress == \A t \in Tasks : pc[t] # "idle" ~> pc[t] = "idle"
=============================================================================
