------------------------------- MODULE Flight -------------------------------
(* Readers of a cached store.  A reader that misses the cache, when nobody else
   is reading that block, reads it from the store; others that come before the
   read is over wait for it.  Any reader may give up at any time, and any read
   may fail.

   What a reader relies on: it gets the right block; it isn't kept waiting when
   no read is under way that could bring what it waits for; it is told of an error
   only if a read has failed or was given up while it waited; and while a block
   is being read, or in the cache, nobody reads it again.

   at[t] = <<>>, or <<k, role>> where the role is "read", "wait", "hit";
   outcome[t]: what a reader can be told: a set of "ok", "err".
   st[t]: of a "read", "busy", "ok", "err": the store's answer. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Readers, Blocks
VARIABLES role, blk, st,
  room, \* Is there room for all blocks, so that none need be evicted?
  have  \* The blocks that must be in the cache
fvars == <<role, blk, st, room, have>>

FlightInit == have = {} /\ role = [t \in Readers |-> "none"] /\ blk = [t \in Readers |-> 0] /\ st = [t \in Readers |-> "busy"]

Reading(k) == \E t \in Readers : role[t] = "read" /\ blk[t] = k

(* A call.  It may find the block in the cache, which may at any time drop it *)
Call(t, k, r) ==
  /\ role[t] = "none"
  /\ r => ~Reading(k) /\ k \notin have
  /\ role' = [role EXCEPT ![t] = IF r THEN "read" ELSE IF Reading(k) THEN "wait" ELSE "hit"]
  /\ blk' = [blk EXCEPT ![t] = k] /\ st' = [st EXCEPT ![t] = "busy"]
  /\ UNCHANGED <<room, have>>
(* The store answers *)
Done(t, ok) == role[t] = "read" /\ st[t] = "busy" /\ st' = [st EXCEPT ![t] = IF ok THEN "ok" ELSE "err"] /\ UNCHANGED <<role, blk, room, have>>

(* The end of the reader t's read tells those who wait for it *)
Tell(t, how) == [u \in Readers |-> IF u # t /\ role[u] = "wait" /\ blk[u] = blk[t] /\ st[u] = "busy" THEN how ELSE st[u]]
Return(t, ok) ==
  /\ \/ role[t] = "hit" /\ ok /\ UNCHANGED st
     \/ role[t] = "wait" /\ st[t] = (IF ok THEN "ok" ELSE "err") /\ UNCHANGED st
     \/ role[t] = "read" /\ st[t] = (IF ok THEN "ok" ELSE "err") /\ st' = Tell(t, IF ok THEN "ok" ELSE "err")
  /\ have' = IF role[t] = "read" /\ ok /\ room THEN have \cup {blk[t]} ELSE have
  /\ role' = [role EXCEPT ![t] = "none"] /\ UNCHANGED <<blk, room>>
Pending(t) == role[t] \in {"read", "wait"} /\ st[t] = "busy" /\ UNCHANGED fvars
Abandon(t) ==
  /\ role[t] # "none"
  /\ st' = IF role[t] = "read" THEN Tell(t, "err") ELSE st
  /\ role' = [role EXCEPT ![t] = "none"] /\ UNCHANGED <<blk, room, have>>

(* Nobody waits for nothing *)
Served == \A t \in Readers : (role[t] = "wait" /\ st[t] = "busy") => Reading(blk[t])
Single == \A t, u \in Readers : (t # u /\ role[t] = "read" /\ role[u] = "read") => blk[t] # blk[u]
=============================================================================
