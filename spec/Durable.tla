------------------------------ MODULE Durable ------------------------------
(* Users' transactions, the users and the timer that sync them, and the flag
   that says whether there is anything to sync.

   A transaction holds the transaction group's lock shared while it changes
   memory, in two steps.  Writing a transaction group to disk holds it
   exclusively.  Whoever calls sync relies on everything that had been
   acknowledged by then being on disk once it returns.

   FlagInside   Whether a transaction sets the flag while it holds the lock
   ClearInside  Whether syncing clears the flag once everything is written,
                still holding the lock, and not when it begins
   Both are needed. *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Tasks, Ops, Syncers, Syncs, FlagInside, ClearInside, MayFail
VARIABLES pc,       \* task -> where it is
          n,        \* task -> its current operation
          ended,    \* Acknowledged operations
          prec,     \* operation -> those that had been acknowledged before it began
          mem,      \* Half operations in memory
          disk,     \* Half operations that are durable
          dirty,    \* The flag
          readers, writer,
          spc,      \* syncer -> where it is
          sn,       \* syncer -> how many times it has
          need      \* syncer -> what was acknowledged when it began
vars == <<pc, n, ended, prec, mem, disk, dirty, readers, writer, spc, sn, need>>
tv == <<pc, n, ended, prec, readers>>
sv == <<spc, sn, need, writer>>
NoOne == "none"
Op(t) == <<t, n[t]>>
Init ==
  /\ pc = [t \in Tasks |-> "idle"] /\ n = [t \in Tasks |-> 0]
  /\ ended = {} /\ prec = [x \in {} |-> {}] /\ mem = {} /\ disk = {} /\ dirty = FALSE
  /\ readers = {} /\ writer = NoOne
  /\ spc = [s \in Syncers |-> "idle"] /\ sn = [s \in Syncers |-> 0] /\ need = [s \in Syncers |-> {}]

Begin(t) ==
  /\ pc[t] = "idle" /\ n[t] < Ops
  /\ n' = [n EXCEPT ![t] = @ + 1]
  /\ prec' = (<<t, n[t] + 1>> :> ended) @@ prec
  /\ dirty' = IF FlagInside THEN dirty ELSE TRUE
  /\ pc' = [pc EXCEPT ![t] = "wait"]
  /\ UNCHANGED <<ended, mem, disk, readers>> /\ UNCHANGED sv
Lock(t) ==
  /\ pc[t] = "wait" /\ writer = NoOne
  /\ readers' = readers \cup {t}
  /\ dirty' = IF FlagInside THEN TRUE ELSE dirty
  /\ pc' = [pc EXCEPT ![t] = "first"]
  /\ UNCHANGED <<n, ended, prec, mem, disk>> /\ UNCHANGED sv
Change(t, from, half, to) ==
  /\ pc[t] = from
  /\ mem' = mem \cup {<<Op(t), half>>}
  /\ pc' = [pc EXCEPT ![t] = to]
  /\ UNCHANGED <<n, ended, prec, disk, dirty, readers>> /\ UNCHANGED sv
Unlock(t) ==
  /\ pc[t] = "unlock"
  /\ readers' = readers \ {t}
  /\ ended' = ended \cup {Op(t)}
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ UNCHANGED <<n, prec, mem, disk, dirty>> /\ UNCHANGED sv

SBegin(s) ==
  /\ spc[s] = "idle" /\ sn[s] < Syncs
  /\ sn' = [sn EXCEPT ![s] = @ + 1]
  /\ need' = [need EXCEPT ![s] = ended]
  /\ spc' = [spc EXCEPT ![s] = IF dirty THEN "wait" ELSE "done"]
  /\ dirty' = IF ClearInside THEN dirty ELSE FALSE
  /\ UNCHANGED <<mem, disk, writer>> /\ UNCHANGED tv
SLock(s) ==
  /\ spc[s] = "wait" /\ writer = NoOne /\ readers = {}
  /\ writer' = s
  /\ spc' = [spc EXCEPT ![s] = "write"]
  /\ UNCHANGED <<mem, disk, dirty, sn, need>> /\ UNCHANGED tv
SWrite(s) ==
  /\ spc[s] = "write"
  /\ disk' = mem
  /\ spc' = [spc EXCEPT ![s] = "unlock"]
  /\ UNCHANGED <<mem, dirty, sn, need, writer>> /\ UNCHANGED tv
SUnlock(s) ==
  /\ spc[s] = "unlock"
  /\ dirty' = IF ClearInside THEN FALSE ELSE dirty
  /\ writer' = NoOne
  /\ spc' = [spc EXCEPT ![s] = "done"]
  /\ UNCHANGED <<mem, disk, sn, need>> /\ UNCHANGED tv
\* The disks fail.  The user is told, and may try again
SFail(s) ==
  /\ MayFail /\ spc[s] = "write"
  /\ writer' = NoOne
  /\ spc' = [spc EXCEPT ![s] = "idle"]
  /\ UNCHANGED <<mem, disk, dirty, sn, need>> /\ UNCHANGED tv
SDone(s) ==
  /\ spc[s] = "done"
  /\ spc' = [spc EXCEPT ![s] = "idle"]
  /\ UNCHANGED <<mem, disk, dirty, sn, need, writer>> /\ UNCHANGED tv

Next ==
  \/ \E t \in Tasks: Begin(t) \/ Lock(t) \/ Change(t, "first", 1, "second") \/ Change(t, "second", 2, "unlock") \/ Unlock(t)
  \/ \E s \in Syncers: SBegin(s) \/ SLock(s) \/ SWrite(s) \/ SUnlock(s) \/ SFail(s) \/ SDone(s)
Spec == Init /\ [][Next]_vars

OnDisk == {x[1]: x \in disk}
\* What a power failure leaves, at any moment
Atomic == \A x \in disk: <<x[1], 1>> \in disk /\ <<x[1], 2>> \in disk
Ordered == \A o \in OnDisk: prec[o] \subseteq OnDisk
\* What sync promises
Durable == \A s \in Syncers: spc[s] = "done" => need[s] \subseteq OnDisk
=============================================================================
