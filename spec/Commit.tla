------------------------------ MODULE Commit ------------------------------
(* How a transaction reaches the disks, and what a mount makes of whatever a
   power failure left there.

   Each disk has two labels and two space maps.  A space map and the label of
   the same index belong together; a label refers to the trees' roots.  Trees
   are copied on write: a version of them occupies zones that no earlier
   version needs, and space that a version doesn't need any more is erased and
   used again once that version is durable.

   A write may reach the disk at any time after it's issued, or not at all,
   until a sync that was issued later completes.  Writes of several sectors may
   tear. *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS Disks,      \* Mirrors of each other
          Zones,
          MaxVersion,
          MaxFail,
          \* Which of the two labels a mount prefers: "latest" or "first"
          Prefer,
          \* Is there a sync between the first labels and the second space maps?
          Barrier,
          \* Does a mount remember which label was the newest, so that the next sync doesn't begin with it?
          Alternate,
          \* How a mount's first transaction is numbered: one more than what was found, or 0 more
          Skip,
          \* When zones are reaped: "after" the last sync or "before" it
          Reap

Torn == 99
Loc == {<<"label", 0>>, <<"label", 1>>, <<"map", 0>>, <<"map", 1>>} \cup {<<"zone", z>>: z \in Zones}

VARIABLES
  disk,     \* disk -> location -> what is stable there
  pend,     \* disk -> what was written there since: location -> sequence of values
  cur,      \* The version of the trees in memory
  where,    \* The zone that holds it
  old,      \* Zones whose contents aren't needed by it
  free,     \* Zones that may be written to
  txg,      \* The number of the transaction
  newest,   \* The label that was written last
  pc,       \* How far the sync is
  wait,     \* Disks that have yet to complete this step
  acked,    \* The newest version that a sync promised
  fails,    \* Number of power failures so far
  mounted   \* What the last mount found
vars == <<disk, pend, cur, where, old, free, newest, txg, pc, wait, acked, fails, mounted>>

\* What a location holds: a version, and for labels their generation
None == [v |-> 0, g |-> 0]
Gen(t, i) == 2 * t + i
Val(v, i) == [v |-> v, g |-> Gen(txg, i), z |-> where]

Init ==
  /\ where = CHOOSE z \in Zones: TRUE
  /\ disk = [d \in Disks |-> [l \in Loc |-> [v |-> 1, g |-> IF l[1] \in {"label", "map"} THEN Gen(1, l[2]) ELSE 0, z |-> where]]]
  /\ pend = [d \in Disks |-> [l \in Loc |-> <<>>]]
  /\ newest = 1 /\ txg = 2 /\ cur = 1 /\ old = {} /\ free = Zones \ {where}
  /\ pc = "idle" /\ wait = {} /\ acked = 1 /\ fails = 0 /\ mounted = [ok |-> TRUE, v |-> 1, mapok |-> TRUE, i |-> 1, z |-> where, a |-> 1, g |-> 3]

Write(ds, l, x) == pend' = [d \in Disks |-> IF d \in ds THEN [pend[d] EXCEPT ![l] = Append(@, x)] ELSE pend[d]]

\* Something changes, and is written to a free zone sooner or later
Change ==
  /\ pc = "idle" /\ cur < MaxVersion /\ free # {}
  /\ \E z \in free:
       /\ cur' = cur + 1 /\ where' = z /\ old' = old \cup {where} /\ free' = free \ {z}
       /\ Write(Disks, <<"zone", z>>, [v |-> cur + 1, g |-> 0, z |-> z])
  /\ UNCHANGED <<disk, newest, txg, pc, wait, acked, fails, mounted>>

\* The steps of a sync, and what each writes to every disk
Steps == <<"map0", "sync0", "label0", "bar", "map1", "sync1", "label1", "sync2">>
First == 1 - newest
Start == pc = "idle" /\ cur > acked /\ pc' = "map0" /\ wait' = Disks /\ UNCHANGED <<disk, pend, cur, where, old, free, newest, txg, acked, fails, mounted>>
Follow(s) ==
  IF s = "sync2" THEN "reap" ELSE
  LET k == CHOOSE k \in DOMAIN Steps: Steps[k] = s IN Steps[k + 1]
\* The names are those of the usual order
Target(s) == CASE s = "map0" -> <<"map", First>> [] s = "map1" -> <<"map", 1 - First>>
               [] s = "label0" -> <<"label", First>> [] s = "label1" -> <<"label", 1 - First>>
Flushed(d) == [l \in Loc |-> IF pend[d][l] = <<>> THEN disk[d][l] ELSE pend[d][l][Len(pend[d][l])]]
\* One disk does its part of the step
DoStep ==
  /\ pc \in {Steps[k]: k \in DOMAIN Steps} /\ wait # {}
  /\ \E d \in wait:
       /\ wait' = wait \ {d}
       /\ IF pc \in {"map0", "map1", "label0", "label1"} THEN
            Write({d}, Target(pc), Val(cur, Target(pc)[2])) /\ UNCHANGED disk
          ELSE IF pc = "bar" /\ ~Barrier THEN UNCHANGED <<disk, pend>>
          ELSE disk' = [disk EXCEPT ![d] = Flushed(d)] /\ pend' = [pend EXCEPT ![d] = [l \in Loc |-> <<>>]]
  /\ UNCHANGED <<cur, where, old, free, newest, txg, pc, acked, fails, mounted>>
EndStep ==
  /\ pc \in {Steps[k]: k \in DOMAIN Steps} /\ wait = {}
  /\ pc' = Follow(pc) /\ wait' = IF pc' = "reap" THEN {} ELSE Disks
  /\ free' = IF pc = "sync0" /\ Reap = "before" THEN free \cup old ELSE free
  /\ UNCHANGED <<disk, pend, cur, where, old, newest, txg, acked, fails, mounted>>
\* The sync is over, and what it superseded may be used again
DoReap ==
  /\ pc = "reap" /\ pc' = "idle" /\ acked' = cur
  /\ \/ free' = free \cup old /\ old' = {}
        /\ pend' = [d \in Disks |-> [l \in Loc |-> IF l[1] = "zone" /\ l[2] \in old THEN Append(pend[d][l], None) ELSE pend[d][l]]]
     \/ UNCHANGED <<free, old, pend>>     \* Not all of that zone is free yet
  /\ UNCHANGED <<disk, cur, where, wait, fails, mounted>>
  /\ newest' = 1 /\ txg' = txg + 1
\* Without a barrier, writes may still be combined with reuse in an early reap
EarlyReuse ==
  /\ Reap = "before" /\ pc \in {"label0", "bar", "map1", "sync1"} /\ old # {}
  /\ \E z \in old: Write(Disks, <<"zone", z>>, None) /\ old' = old \ {z}
  /\ UNCHANGED <<disk, cur, where, free, newest, txg, pc, wait, acked, fails, mounted>>
\* The drive gets round to writing something, which takes time
Settle ==
  /\ \E d \in Disks: \E l \in Loc:
       /\ pend[d][l] # <<>>
       /\ IF disk[d][l].v # Torn THEN disk' = [disk EXCEPT ![d][l].v = Torn] /\ UNCHANGED pend
          ELSE /\ disk' = [disk EXCEPT ![d][l] = Head(pend[d][l])]
               /\ pend' = [pend EXCEPT ![d][l] = Tail(@)]
  /\ UNCHANGED <<cur, where, old, free, newest, txg, pc, wait, acked, fails, mounted>>

----------------------------------------------------------------------------
\* What a mount finds
Valid(x) == x.v # Torn /\ x.v # 0
Labels(D, d) == {i \in {0, 1}: Valid(D[d][<<"label", i>>])}
Pick(D, d) ==
  LET S == Labels(D, d)
  IN IF Prefer = "first" THEN CHOOSE i \in S: \A j \in S: i <= j
     ELSE CHOOSE i \in S: \A j \in S: D[d][<<"label", i>>].g >= D[d][<<"label", j>>].g
Mount(D) ==
  LET ds == {d \in Disks: Labels(D, d) # {}}
      lab == [d \in ds |-> D[d][<<"label", Pick(D, d)>>]]
      best == CHOOSE d \in ds: \A e \in ds: lab[d].g >= lab[e].g
      L == lab[best]
      i == L.g % 2
      \* Any of them may be read: the first will do if it isn't damaged
      M == {D[d][<<"map", i>>]: d \in Disks}
      T == {D[d][<<"zone", L.z>>]: d \in Disks}
  IN IF ds = {} THEN [ok |-> FALSE, v |-> 0, mapok |-> FALSE, i |-> 0, z |-> 0, a |-> acked, g |-> 0]
     ELSE [ok |-> \A t \in T: t.v = L.v, v |-> L.v, mapok |-> \A m \in M: m.v = L.v, i |-> i, z |-> L.z, a |-> acked, g |-> L.g]
\* Power fails, and what's pending is lost
Fail ==
  /\ fails < MaxFail /\ fails' = fails + 1
  /\ LET m == Mount(disk) IN
       /\ mounted' = m
       /\ cur' = m.v /\ where' = m.z /\ newest' = (IF Alternate THEN m.i ELSE 1) /\ txg' = (m.g \div 2) + Skip /\ old' = {} /\ free' = Zones \ {m.z}
  /\ pend' = [d \in Disks |-> [l \in Loc |-> <<>>]]
  /\ pc' = "idle" /\ wait' = {} /\ UNCHANGED <<disk, acked>>
Next == Change \/ Start \/ DoStep \/ EndStep \/ DoReap \/ EarlyReuse \/ Settle \/ Fail
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* There's always something to mount, whose trees are all there
Mountable == mounted.ok
\* and it's at least as new as what was promised
Durable == mounted.v >= mounted.a
\* and space is accounted for as those trees imply
Consistent == mounted.mapok
=============================================================================
