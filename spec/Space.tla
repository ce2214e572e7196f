------------------------------- MODULE Space -------------------------------
(* What becomes of a pool's blocks.

   Blocks are allocated in order from an open zone.  When it's full it closes,
   and what's freed in it doesn't become usable until nothing in it is live.
   Then the zone is dead, and once the transaction that killed it is durable,
   it's empty and can be opened again.  The cleaner moves what's live out of
   zones of which half or more has been freed.  A power failure takes the pool
   back to the last durable transaction. *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Zones, Size, Records, MaxTxg, MaxLive, MaxFail,
          Reap    \* When dead zones become empty: "durable", or "now"
VARIABLES state,  \* zone -> "E"mpty, "O"pen, "C"losed, "D"ead
          alloc,  \* zone -> the number of blocks allocated
          freed,  \* zone -> the number of them that have been freed
          txgs,   \* zone -> <<first, last>> transactions that wrote there
          loc,    \* record -> <<zone, block>>, or <<>>
          born,   \* record -> the transaction that wrote it there
          disk,   \* <<zone, block>> -> record, or "junk"
          txg,
          saved,  \* what is durable of all that
          fails, cleaning, quiet
vars == <<state, alloc, freed, txgs, loc, born, disk, txg, saved, fails, cleaning, quiet>>
Blocks == Zones \X (0..Size - 1)
None == <<>>
Live == {r \in Records: loc[r] # None}
Image == [state |-> state, alloc |-> alloc, freed |-> freed, txgs |-> txgs, loc |-> loc, born |-> born]
Init ==
  /\ state = [z \in Zones |-> "E"] /\ alloc = [z \in Zones |-> 0] /\ freed = [z \in Zones |-> 0] /\ txgs = [z \in Zones |-> <<0, 0>>]
  /\ loc = [r \in Records |-> None] /\ born = [r \in Records |-> 0] /\ disk = [b \in Blocks |-> "junk"] /\ txg = 1
  /\ saved = Image /\ fails = 0 /\ cleaning = {} /\ quiet = FALSE

Room == {z \in Zones: state[z] = "O"}
Open(z) ==
  /\ Room = {} /\ state[z] = "E"
  /\ state' = [state EXCEPT ![z] = "O"] /\ alloc' = [alloc EXCEPT ![z] = 0] /\ freed' = [freed EXCEPT ![z] = 0]
  /\ txgs' = [txgs EXCEPT ![z] = <<txg, txg>>]
  /\ UNCHANGED <<loc, born, disk, txg, saved, fails, cleaning, quiet>>

\* The cleaner may use zones that would otherwise be kept for it
Put(r, z) ==
  /\ state[z] = "O"
  /\ disk' = [disk EXCEPT ![<<z, alloc[z]>>] = r]
  /\ txgs' = [txgs EXCEPT ![z] = <<txgs[z][1], txg>>]
\* Zone z after it has n blocks allocated and f freed
After(s, n, f) == IF n = Size /\ f = n THEN "D" ELSE IF n = Size THEN "C" ELSE s

Write(r, z) ==
  /\ ~quiet /\ loc[r] = None /\ Cardinality(Live) < MaxLive
  \* One zone is kept for the cleaner
  /\ \E e \in Zones: state[e] = "E"
  /\ Put(r, z)
  /\ alloc' = [alloc EXCEPT ![z] = @ + 1]
  /\ state' = [state EXCEPT ![z] = After("O", alloc[z] + 1, freed[z])]
  /\ loc' = [loc EXCEPT ![r] = <<z, alloc[z]>>] /\ born' = [born EXCEPT ![r] = txg]
  /\ UNCHANGED <<freed, txg, saved, fails, cleaning, quiet>>

Free(r) == LET y == loc[r][1] IN
  /\ freed' = [freed EXCEPT ![y] = @ + 1]
  /\ state' = [state EXCEPT ![y] = After(@, alloc[y], freed[y] + 1)]
Delete(r) ==
  /\ r \in Live
  /\ Free(r)
  /\ loc' = [loc EXCEPT ![r] = None]
  /\ UNCHANGED <<alloc, txgs, born, disk, txg, saved, fails, cleaning, quiet>>

StartClean(z) ==
  /\ cleaning = {} /\ state[z] = "C" /\ 2 * freed[z] >= Size
  /\ cleaning' = {z}
  /\ UNCHANGED <<state, alloc, freed, txgs, loc, born, disk, txg, saved, fails, quiet>>
Move(r, z) ==
  /\ r \in Live /\ loc[r][1] \in cleaning /\ state[loc[r][1]] = "C"
  /\ Put(r, z)
  /\ LET y == loc[r][1] IN
       /\ alloc' = [alloc EXCEPT ![z] = @ + 1]
       /\ freed' = [freed EXCEPT ![y] = @ + 1]
       /\ state' = [state EXCEPT ![z] = After("O", alloc[z] + 1, freed[z]), ![y] = After(@, alloc[y], freed[y] + 1)]
  /\ loc' = [loc EXCEPT ![r] = <<z, alloc[z]>>] /\ born' = [born EXCEPT ![r] = txg]
  /\ UNCHANGED <<txg, saved, fails, cleaning, quiet>>
EndClean ==
  /\ cleaning # {} /\ \A z \in cleaning: state[z] # "C"
  /\ cleaning' = {}
  /\ UNCHANGED <<state, alloc, freed, txgs, loc, born, disk, txg, saved, fails, quiet>>

ReapAll(s) == [z \in Zones |-> IF s[z] = "D" THEN "E" ELSE s[z]]
\* Dead zones are empty in what's saved, because it doesn't need them
Sync ==
  /\ txg < MaxTxg \/ quiet
  /\ state' = ReapAll(state)
  /\ saved' = [Image EXCEPT !.state = ReapAll(state)]
  /\ txg' = IF txg < MaxTxg THEN txg + 1 ELSE txg
  /\ UNCHANGED <<alloc, freed, txgs, loc, born, disk, fails, cleaning, quiet>>
ReapEarly ==
  /\ Reap = "now" /\ state' = ReapAll(state)
  /\ UNCHANGED <<alloc, freed, txgs, loc, born, disk, txg, saved, fails, cleaning, quiet>>
\* Zones that were open are opened again at the same place
Fail ==
  /\ fails < MaxFail
  /\ fails' = fails + 1
  /\ state' = saved.state /\ alloc' = saved.alloc /\ freed' = saved.freed /\ txgs' = saved.txgs /\ loc' = saved.loc /\ born' = saved.born
  /\ cleaning' = {}
  /\ UNCHANGED <<disk, txg, saved, quiet>>
\* From some time on, nobody writes any more
Quiesce == ~quiet /\ quiet' = TRUE /\ UNCHANGED <<state, alloc, freed, txgs, loc, born, disk, txg, saved, fails, cleaning>>

Moves == \E r \in Records, z \in Zones: Move(r, z)
Opens == \E z \in Zones: Open(z)
Starts == \E z \in Zones: StartClean(z)
Next == \/ Opens \/ Moves \/ Starts \/ EndClean \/ Sync \/ ReapEarly \/ Fail \/ Quiesce
        \/ \E r \in Records: Delete(r) \/ \E z \in Zones: Write(r, z)
Spec == Init /\ [][Next]_vars /\ WF_vars(Opens) /\ WF_vars(Moves) /\ WF_vars(Starts) /\ WF_vars(EndClean) /\ SF_vars(Sync) /\ WF_vars(Quiesce)

In(z) == {r \in Live: loc[r][1] = z}
NoOverlap == \A q, r \in Live: q # r => loc[q] # loc[r]
Accounted == \A z \in Zones: Cardinality(In(z)) = IF state[z] \in {"O", "C"} THEN alloc[z] - freed[z] ELSE 0
Intact == \A r \in Live: disk[loc[r]] = r
\* A power failure would find everything that was durable
Durable == \A r \in Records: saved.loc[r] # None => disk[saved.loc[r]] = r /\ saved.state[saved.loc[r][1]] \in {"O", "C"}
Txgs == \A r \in Live: txgs[loc[r][1]][1] <= born[r] /\ born[r] <= txgs[loc[r][1]][2]
States == \A z \in Zones: (state[z] = "O" => alloc[z] < Size) /\ (state[z] \in {"C", "D"} => alloc[z] = Size)
Inv == NoOverlap /\ Accounted /\ Intact /\ Durable /\ Txgs /\ States
\* In the end no zone is kept whose blocks are mostly free, and none that's dead
Sym == Permutations(Zones) \cup Permutations(Records)
Reclaimed == <>[](\A z \in Zones: ~(state[z] = "C" /\ 2 * freed[z] >= Size) /\ state[z] # "D")
=============================================================================
