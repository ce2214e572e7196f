-------------------------------- MODULE Bank --------------------------------
(* The write-back cache's bank of credit, as its users see it.

   The bank lends at most cap bytes.  A borrower who can't be served at once
   queues; the queue is served strictly in order.  A request may be abandoned
   while it waits, and then costs nothing.  Calls take time: the moment at which
   a call takes effect (GrantNow, Enqueue, Grant, Apply) is internal. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Threads
VARIABLES
  cap,    \* The bank's capacity
  free,   \* Credit not lent
  queue,  \* Sequence of [t: thread, n: amount, live: not abandoned]
  ph,     \* Thread -> what it is doing
  amt     \* Thread -> the amount that its current call is about
bvars == <<cap, free, queue, ph, amt>>

Phases == {"idle", "called", "queued", "granted", "dropping", "repaying", "repaid"}

BankInit(c) ==
  /\ cap = c /\ free = c /\ queue = <<>>
  /\ ph = [t \in Threads |-> "idle"] /\ amt = [t \in Threads |-> 0]

Borrow(t, n) ==
  /\ ph[t] = "idle" /\ n <= cap
  /\ ph' = [ph EXCEPT ![t] = "called"] /\ amt' = [amt EXCEPT ![t] = n]
  /\ UNCHANGED <<cap, free, queue>>

(* Served at once: nobody is ahead *)
GrantNow(t) ==
  /\ ph[t] = "called" /\ queue = <<>> /\ free >= amt[t]
  /\ free' = free - amt[t] /\ ph' = [ph EXCEPT ![t] = "granted"]
  /\ UNCHANGED <<cap, queue, amt>>

Enqueue(t) ==
  /\ ph[t] = "called"
  /\ queue' = Append(queue, [t |-> t, n |-> amt[t], live |-> TRUE])
  /\ ph' = [ph EXCEPT ![t] = "queued"]
  /\ UNCHANGED <<cap, free, amt>>

CanGrant == queue # <<>> /\ Head(queue).live /\ free >= Head(queue).n
Grant ==
  /\ CanGrant
  /\ queue' = Tail(queue)
  /\ free' = free - Head(queue).n
  /\ ph' = [ph EXCEPT ![Head(queue).t] = "granted"]
  /\ UNCHANGED <<cap, amt>>

(* The borrower has his credit *)
Granted(t, n) ==
  /\ ph[t] = "granted" /\ amt[t] = n
  /\ ph' = [ph EXCEPT ![t] = "idle"] /\ UNCHANGED <<cap, free, queue, amt>>

(* An abandoned request may linger in the queue, but never takes any credit *)
Abandon(t) ==
  /\ ph[t] = "queued"
  /\ queue' = [i \in DOMAIN queue |-> IF queue[i].t = t THEN [queue[i] EXCEPT !.live = FALSE] ELSE queue[i]]
  /\ ph' = [ph EXCEPT ![t] = "dropping"] /\ UNCHANGED <<cap, free, amt>>
Abandoned(t) ==
  /\ ph[t] = "dropping"
  /\ ph' = [ph EXCEPT ![t] = "idle"] /\ UNCHANGED <<cap, free, queue, amt>>
Purge ==
  /\ queue # <<>> /\ ~Head(queue).live
  /\ queue' = Tail(queue) /\ UNCHANGED <<cap, free, ph, amt>>

Repay(t, n) ==
  /\ ph[t] = "idle"
  /\ ph' = [ph EXCEPT ![t] = "repaying"] /\ amt' = [amt EXCEPT ![t] = n]
  /\ UNCHANGED <<cap, free, queue>>
Apply(t) ==
  /\ ph[t] = "repaying" /\ free + amt[t] <= cap
  /\ free' = free + amt[t] /\ ph' = [ph EXCEPT ![t] = "repaid"]
  /\ UNCHANGED <<cap, queue, amt>>
Repaid(t) ==
  /\ ph[t] = "repaid"
  /\ ph' = [ph EXCEPT ![t] = "idle"] /\ UNCHANGED <<cap, free, queue, amt>>

Internal == Grant \/ Purge \/ \E t \in Threads : GrantNow(t) \/ Enqueue(t) \/ Apply(t)

(* Is any thread other than t in the middle of a call to the bank? *)
Quiet(t) == \A u \in Threads \ {t} : ph[u] \in {"idle", "queued", "granted"}
(* Does everything ahead of t, which is queued, get out of its way? *)
Servable(t) ==
  \E i \in DOMAIN queue :
    /\ queue[i].t = t /\ queue[i].live /\ queue[i].n <= free
    /\ \A j \in 1..(i - 1) : ~queue[j].live /\ queue[j].n <= free
=============================================================================
