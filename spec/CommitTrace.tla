---------------------------- MODULE CommitTrace ----------------------------
(* The order in which the real system issues its writes, from the journals of
   its disks.  Commit says which orders survive any power failure; these are
   the steps it takes: a label isn't written before everything it refers to is
   stable everywhere; the newest label's space map isn't overwritten; and
   space isn't written twice without being erased between. *)
EXTENDS TraceLib
VARIABLES un,       \* disk -> [id, c] of the writes that aren't known to be stable
          fly,      \* disk -> sync in flight -> the writes that were issued before it
          pair,     \* Labels of the current sync that were issued
          last,     \* and the latest of them
          newest,   \* The label that a mount would prefer, once it's stable
          used      \* disk -> blocks that were written since they were erased
vars == <<l, un, fly, pair, last, newest, used>>
cv == <<un, fly, pair, last, newest, used>>
Empty == [x \in {} |-> 0]
Init == TraceStart /\ un = Empty /\ fly = Empty /\ pair = {} /\ last = 1 /\ newest = 1 /\ used = Empty
New ==
  /\ IsEvent("new")
  /\ un' = [d \in 0..Line.disks - 1 |-> {}] /\ used' = un'
  /\ fly' = [d \in 0..Line.disks - 1 |-> Empty]
  /\ pair' = {} /\ last' = 1 /\ newest' = 1
Submit(d, c) == un' = [un EXCEPT ![d] = @ \cup {[id |-> Line.id, c |-> c]}]
Zone ==
  /\ IsEvent("w") /\ Line.c = "zone"
  /\ LET B == Line.a..(Line.a + Line.n - 1) IN
       /\ B \cap used[Line.d] = {}
       /\ used' = [used EXCEPT ![Line.d] = @ \cup B]
  /\ Submit(Line.d, "zone")
  /\ UNCHANGED <<fly, pair, last, newest>>
\* Erasing is like writing.  A block that's still to be stable mayn't be erased, or what it's replaced with could come first
Erase ==
  /\ IsEvent("x")
  /\ used' = [used EXCEPT ![Line.d] = @ \ (Line.a..(Line.a + Line.n - 1))]
  /\ Submit(Line.d, "zone")
  /\ UNCHANGED <<fly, pair, last, newest>>
\* While it's being written, the other label has to be the newest.  It's enough that one disk has it
LabelOf(i) == IF i = 0 THEN "label0" ELSE "label1"
Stable(c) == \A d \in DOMAIN un: \A w \in un[d]: w.c # c
Map ==
  /\ IsEvent("w") /\ Line.c \in {"map0", "map1"}
  /\ Line.i # newest
  /\ \E d \in DOMAIN un: \A w \in un[d]: w.c # LabelOf(newest)
  /\ Submit(Line.d, Line.c)
  /\ UNCHANGED <<fly, pair, last, newest, used>>
Label ==
  /\ IsEvent("w") /\ Line.c \in {"label0", "label1"}
  \* The mirrors' and disks' labels are issued together
  /\ Stable("zone") /\ Stable(IF Line.i = 0 THEN "map0" ELSE "map1")
  /\ Submit(Line.d, Line.c)
  /\ last' = Line.i
  /\ pair' = (IF Line.i = last THEN pair \cup {Line.i} ELSE IF pair = {0, 1} THEN {Line.i} ELSE pair \cup {Line.i})
  /\ newest' = (IF pair' = {0, 1} THEN 1 ELSE Line.i)
  /\ UNCHANGED <<fly, used>>
Done ==
  /\ IsEvent("c")
  /\ IF Line.id \in DOMAIN fly[Line.d] THEN
       /\ un' = [un EXCEPT ![Line.d] = {w \in @: w.id \notin fly[Line.d][Line.id]}]
       /\ fly' = [fly EXCEPT ![Line.d] = [x \in DOMAIN @ \ {Line.id} |-> @[x]]]
     ELSE UNCHANGED <<un, fly>>
  /\ UNCHANGED <<pair, last, newest, used>>
Sync ==
  /\ IsEvent("s")
  /\ fly' = [fly EXCEPT ![Line.d] = (Line.id :> {w.id: w \in un[Line.d]}) @@ @]
  /\ UNCHANGED <<un, pair, last, newest, used>>
\* A user's sync returned, or the pool was shut down: the next mount has everything
Acked ==
  /\ IsEvent("acked")
  /\ pair \in {{}, {0, 1}} /\ \A d \in DOMAIN un: \A w \in un[d]: w.c = "zone"
  /\ Stable("label0") /\ Stable("label1")
  /\ UNCHANGED cv
Next == New \/ Zone \/ Erase \/ Map \/ Label \/ Done \/ Sync \/ Acked
Spec == Init /\ [][Next]_vars
=============================================================================
