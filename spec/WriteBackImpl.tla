--------------------------- MODULE WriteBackImpl ----------------------------
(* The algorithm by which the bank is implemented, one action per atomic
   operation.  supply is the credit available; flag is its lowest bit, which
   says that somebody sleeps.

   Recheck is TRUE for the algorithm in the tree: a borrower who has queued and
   set the flag looks at the supply once more.  With FALSE (the algorithm
   before commit "fix: don't lose wakeups in WriteBack::borrow") TLC finds that
   credit repaid between the two steps awakens nobody. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Cap, Wants, Rounds, Recheck

VARIABLES supply, flag, queue, lock, pc, old, want, woken, left, held
vars == <<supply, flag, queue, lock, pc, old, want, woken, left, held>>

Init ==
  /\ supply = Cap /\ flag = FALSE /\ queue = <<>> /\ lock = "none"
  /\ pc = [t \in Threads |-> "idle"]
  /\ old = [t \in Threads |-> <<0, FALSE>>]
  /\ want = [t \in Threads |-> 0]
  /\ woken = {} /\ left = [t \in Threads |-> Rounds] /\ held = [t \in Threads |-> 0]

Go(t, p) == pc' = [pc EXCEPT ![t] = p]

Start(t) ==
  /\ pc[t] = "idle" /\ left[t] > 0
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ \E n \in Wants : want' = [want EXCEPT ![t] = n]
  /\ Go(t, "try") /\ UNCHANGED <<supply, flag, queue, lock, old, woken, held>>

\* old_supply = supply.fetch_sub(wants)
Try(t) ==
  /\ pc[t] = "try"
  /\ old' = [old EXCEPT ![t] = <<supply, flag>>]
  /\ supply' = supply - want[t]
  /\ IF supply < want[t] \/ flag
     THEN Go(t, "lock") /\ UNCHANGED held
     ELSE Go(t, "has") /\ held' = [held EXCEPT ![t] = want[t]]
  /\ UNCHANGED <<flag, queue, lock, want, woken, left>>

Lock(t) ==
  /\ pc[t] = "lock" /\ lock = "none"
  /\ lock' = t /\ Go(t, "giveback")
  /\ UNCHANGED <<supply, flag, queue, old, want, woken, left, held>>

\* locked_supply = supply.fetch_add(wants)
GiveBack(t) ==
  /\ pc[t] = "giveback"
  /\ supply' = supply + want[t]
  /\ IF <<supply, flag>> # <<old[t][1] - want[t], old[t][2]>>
     THEN lock' = "none" /\ Go(t, "try")
     ELSE Go(t, "push") /\ UNCHANGED lock
  /\ UNCHANGED <<flag, queue, old, want, woken, left, held>>

Push(t) ==
  /\ pc[t] = "push"
  /\ queue' = Append(queue, t) /\ Go(t, "setflag")
  /\ UNCHANGED <<supply, flag, lock, old, want, woken, left, held>>

SetFlag(t) ==
  /\ pc[t] = "setflag"
  /\ flag' = TRUE /\ lock' = "none"
  /\ Go(t, IF Recheck THEN "awaken" ELSE "sleep")
  /\ UNCHANGED <<supply, queue, old, want, woken, left, held>>

\* awaken().  The callers are borrow (then sleep) and repay (then idle)
Awaken(t) ==
  /\ pc[t] \in {"awaken", "rawaken"} /\ lock = "none"
  /\ lock' = t /\ Go(t, IF pc[t] = "awaken" THEN "aw" ELSE "raw")
  /\ UNCHANGED <<supply, flag, queue, old, want, woken, left, held>>
AwTake(t) ==
  /\ pc[t] \in {"aw", "raw"}
  /\ IF queue = <<>>
     THEN /\ flag' = FALSE /\ lock' = "none"
          /\ Go(t, IF pc[t] = "aw" THEN "sleep" ELSE "idle")
          /\ UNCHANGED <<supply, queue, woken, held>>
     ELSE LET s == Head(queue) IN
          /\ supply' = supply - want[s]
          /\ IF supply < want[s]
             THEN Go(t, IF pc[t] = "aw" THEN "awundo" ELSE "rawundo") /\ UNCHANGED <<queue, woken, held>>
             ELSE /\ queue' = Tail(queue) /\ woken' = woken \cup {s}
                  /\ held' = [held EXCEPT ![s] = want[s]]
                  /\ UNCHANGED pc
          /\ UNCHANGED <<flag, lock>>
  /\ UNCHANGED <<old, want, left>>
AwUndo(t) ==
  /\ pc[t] \in {"awundo", "rawundo"}
  /\ supply' = supply + want[Head(queue)] /\ lock' = "none"
  /\ Go(t, IF pc[t] = "awundo" THEN "sleep" ELSE "idle")
  /\ UNCHANGED <<flag, queue, old, want, woken, left, held>>

Wake(t) ==
  /\ pc[t] = "sleep" /\ t \in woken
  /\ woken' = woken \ {t} /\ Go(t, "has")
  /\ UNCHANGED <<supply, flag, queue, lock, old, want, left, held>>

\* old_supply = supply.fetch_add(credit)
Repay(t) ==
  /\ pc[t] = "has"
  /\ supply' = supply + held[t] /\ held' = [held EXCEPT ![t] = 0]
  /\ Go(t, IF flag THEN "rawaken" ELSE "idle")
  /\ UNCHANGED <<flag, queue, lock, old, want, woken, left>>

Step(t) == Start(t) \/ Try(t) \/ Lock(t) \/ GiveBack(t) \/ Push(t) \/ SetFlag(t) \/ Awaken(t)
           \/ AwTake(t) \/ AwUndo(t) \/ Wake(t) \/ Repay(t)
Done == \A t \in Threads : pc[t] = "idle" /\ left[t] = 0
Next == (\E t \in Threads : Step(t)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Step(t))

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN f[t] + Sum(f, S \ {t})
(* At no time is more lent than the bank has *)
NoOverdraft == Sum(held, Threads) <= Cap
(* Nothing is lost *)
Conserved == Done => supply = Cap /\ ~flag /\ queue = <<>>
(* Everybody who waits is served, given that what is lent is repaid *)
Served == <>Done
=============================================================================
