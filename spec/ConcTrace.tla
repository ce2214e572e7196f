----------------------------- MODULE ConcTrace -----------------------------
(* Whether what a power failure left of concurrent users' work is what Durable
   allows.  Each task's operations are numbered, and each sets components of
   its state to its number (or to zero), so that the state that was found says
   how many of the task's operations it includes. *)
EXTENDS TraceLib
VARIABLES ops,      \* task -> sequence of what its operations set
          begun, done,  \* task -> how many
          before,   \* task -> for each operation, the others' done when it began
          safe,     \* task -> how many have to survive
          syncing   \* sync in progress -> done when it began
vars == <<l, ops, begun, done, before, safe, syncing>>
Init == TraceStart /\ ops = <<>> /\ begun = <<>> /\ done = <<>> /\ before = <<>> /\ safe = <<>> /\ syncing = [x \in {} |-> 0]
T == DOMAIN begun
New ==
  /\ IsEvent("new")
  /\ ops' = [i \in 1..Line.n |-> <<>>] /\ before' = ops'
  /\ begun' = [i \in 1..Line.n |-> 0] /\ done' = begun' /\ safe' = begun'
  /\ syncing' = [x \in {} |-> 0]
Begin ==
  /\ IsEvent("begin")
  /\ LET i == Line.i + 1 IN
       /\ Line.n = begun[i] + 1 /\ done[i] = begun[i]
       /\ begun' = [begun EXCEPT ![i] = @ + 1]
       /\ ops' = [ops EXCEPT ![i] = Append(@, Line.set)]
       /\ before' = [before EXCEPT ![i] = Append(@, done)]
  /\ UNCHANGED <<done, safe, syncing>>
End ==
  /\ IsEvent("end")
  /\ LET i == Line.i + 1 IN Line.n = begun[i] /\ done' = [done EXCEPT ![i] = Line.n]
  /\ UNCHANGED <<ops, begun, before, safe, syncing>>
SyncBegin ==
  /\ IsEvent("sbegin")
  /\ syncing' = (Line.s :> done) @@ syncing
  /\ UNCHANGED <<ops, begun, done, before, safe>>
Larger(a, b) == IF a > b THEN a ELSE b
SyncEnd ==
  /\ IsEvent("send")
  /\ safe' = [i \in T |-> Larger(safe[i], syncing[Line.s][i])]
  /\ syncing' = [s \in DOMAIN syncing \ {Line.s} |-> syncing[s]]
  /\ UNCHANGED <<ops, begun, done, before>>
Get(s, c) == IF c \in DOMAIN s THEN s[c] ELSE 0
\* The component's value after the task's first k operations
RECURSIVE Value(_, _, _)
Value(o, c, k) == IF k = 0 THEN 0 ELSE IF c \in DOMAIN o[k] THEN o[k][c] ELSE Value(o, c, k - 1)
Comps(o) == UNION {DOMAIN o[k]: k \in 1..Len(o)}
Matches(i, s, k) == \A c \in Comps(ops[i]) \cup DOMAIN s: Get(s, c) = Value(ops[i], c, k)
\* The driver says which prefix it is
Crash ==
  /\ IsEvent("crash")
  /\ Line.r = "ok" /\ Line.check = "true"
  /\ \A i \in T:
       LET k == Line.k[i] IN
         /\ k \in safe[i]..begun[i]
         /\ Matches(i, Line.got[i], k)
         /\ IF k = 0 THEN TRUE ELSE \A j \in T: before[i][k][j] <= Line.k[j]
  /\ UNCHANGED <<ops, begun, done, before, safe, syncing>>
Next == New \/ Begin \/ End \/ SyncBegin \/ SyncEnd \/ Crash
Spec == Init /\ [][Next]_vars
=============================================================================
