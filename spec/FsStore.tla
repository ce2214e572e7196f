------------------------------ MODULE FsStore ------------------------------
(* How the file system's operations change what it stores, and what syncs and
   power failures make of that.  An operation makes its changes one key after
   the other, but all of them in one transaction. *)
EXTENDS Integers, FiniteSets, Sequences, TLC, SequencesExt
CONSTANTS Ids,      \* Inodes, of which 1 is the top directory
          Names, MaxFail,
          Locked,   \* A sync waits for operations to end, or not
          Cleanup   \* A mount deletes what was dying, or not
VARIABLES mem,      \* What is stored, including what's in memory only
          todo,     \* Changes that the current operation has yet to make
          disk,     \* What is durable
          held,     \* Inodes in use
          fails,
          ready     \* Mounted, and cleaned up
vars == <<mem, todo, disk, held, fails, ready>>
S == INSTANCE Sound
\* A store is a record of sets, the same as Sound's but that inodes are a function
Seqs(s) == [inos |-> SetToSeq({<<i, s.ino[i].ty, s.ino[i].n, s.ino[i].size, s.ino[i].bytes, 1>>: i \in DOMAIN s.ino}),
            ents |-> SetToSeq(s.ents), xt |-> SetToSeq(s.xt), xa |-> SetToSeq(s.xa), dying |-> SetToSeq(s.dying), bad |-> <<>>]
Dir(n) == [ty |-> "Dir", n |-> n, size |-> 0, bytes |-> 0]
Reg == [ty |-> "Reg", n |-> 1, size |-> 0, bytes |-> 0]
Dots(d, p) == {<<d, ".", d, 4>>, <<d, "..", p, 4>>}
New == [ino |-> 1 :> Dir(1), ents |-> Dots(1, 1), xt |-> {}, xa |-> {}, dying |-> {}]
Init == mem = New /\ todo = <<>> /\ disk = New /\ held = {} /\ fails = 0 /\ ready = TRUE

Idle == todo = <<>> /\ ready
\* An operation is a sequence of stores
Do(q) == mem' = q[1] /\ todo' = Tail(q) /\ UNCHANGED <<disk, fails, ready>>
Step == todo # <<>> /\ mem' = Head(todo) /\ todo' = Tail(todo) /\ UNCHANGED <<disk, held, fails, ready>>

AddEnt(s, d, nm, i, t) == [s EXCEPT !.ents = @ \cup {<<d, nm, i, t>>}]
DelEnt(s, e) == [s EXCEPT !.ents = @ \ {e}]
Link(s, i, k) == [s EXCEPT !.ino[i].n = @ + k]
SetIno(s, i, v) == [s EXCEPT !.ino = (i :> v) @@ @]
DelIno(s, i) == [s EXCEPT !.ino = [j \in DOMAIN @ \ {i} |-> @[j]]]
\* The changes that delete inode i
Gone(s, i) ==
  LET a == [s EXCEPT !.xt = {x \in @: x[1] # i}]
      b == [a EXCEPT !.xa = {x \in @: x[1] # i}]
      c == DelIno(b, i) IN <<a, b, c, [c EXCEPT !.dying = @ \ {i}]>>
Named == {e \in mem.ents: e[2] \in Names}
IsDir(i) == i \in DOMAIN mem.ino /\ mem.ino[i].ty = "Dir"
Alive(i) == i \in DOMAIN mem.ino /\ mem.ino[i].n > 0
Free(d, nm) == \A e \in mem.ents: e[1] # d \/ e[2] # nm

Create(d, nm, i) ==
  /\ Idle /\ IsDir(d) /\ Alive(d) /\ Free(d, nm) /\ i \notin DOMAIN mem.ino
  /\ LET a == SetIno(mem, i, Reg) IN Do(<<a, AddEnt(a, d, nm, i, 8)>>)
  /\ held' = held \cup {i}
Mkdir(d, nm, i) ==
  /\ Idle /\ IsDir(d) /\ Alive(d) /\ Free(d, nm) /\ i \notin DOMAIN mem.ino
  /\ LET a == SetIno(mem, i, Dir(2))
         b == [a EXCEPT !.ents = @ \cup Dots(i, d)]
         c == AddEnt(b, d, nm, i, 4) IN Do(<<a, b, c, IF d = 1 THEN Link(c, d, 1) ELSE Link(c, d, 1)>>)
  /\ UNCHANGED held
MkLink(d, nm, i) ==
  /\ Idle /\ IsDir(d) /\ Alive(d) /\ Free(d, nm) /\ Alive(i) /\ ~IsDir(i) /\ mem.ino[i].n < 3
  /\ LET a == Link(mem, i, 1) IN Do(<<a, AddEnt(a, d, nm, i, 8)>>)
  /\ UNCHANGED held
\* Whether it's in use or not, it's to be deleted once nobody uses it
Unlink(e) ==
  /\ Idle /\ e \in Named /\ ~IsDir(e[3])
  /\ LET i == e[3] a == DelEnt(mem, e) b == Link(a, i, -1) IN
       Do(<<a, b>> \o IF b.ino[i].n > 0 THEN <<>> ELSE IF i \in held THEN <<[b EXCEPT !.dying = @ \cup {i}]>> ELSE Gone(b, i))
  /\ UNCHANGED held
Rmdir(e) ==
  /\ Idle /\ e \in Named /\ IsDir(e[3]) /\ \A f \in Named: f[1] # e[3]
  /\ LET i == e[3] a == DelEnt(mem, e) b == Link(a, e[1], -1) c == [b EXCEPT !.ents = @ \ Dots(i, e[1])] IN
       Do(<<a, b, c>> \o Gone(c, i))
  /\ UNCHANGED held
RECURSIVE Up(_)
Up(d) == IF d = 1 THEN {1} ELSE {d} \cup Up((CHOOSE e \in mem.ents: e[1] = d /\ e[2] = "..")[3])
Rename(e, d, nm) ==
  /\ Idle /\ e \in Named /\ IsDir(d) /\ Alive(d) /\ Free(d, nm) /\ e[3] \notin Up(d)
  /\ LET i == e[3] a == DelEnt(mem, e) b == AddEnt(a, d, nm, i, e[4])
         c == [b EXCEPT !.ents = (@ \ Dots(i, e[1])) \cup Dots(i, d)]
         q == Link(c, e[1], -1) IN
       Do(IF e[4] = 8 \/ d = e[1] THEN <<a, b>> ELSE <<a, b, c, q, Link(q, d, 1)>>)
  /\ UNCHANGED held
Write(i, o) ==
  /\ Idle /\ Alive(i) /\ ~IsDir(i) /\ o \in 0..1
  /\ LET old == {x \in mem.xt: x[1] = i /\ x[2] = o}
         a == [mem EXCEPT !.xt = (@ \ old) \cup {<<i, o, 1>>}]
         v == mem.ino[i] IN
       Do(<<a, [a EXCEPT !.ino[i] = [v EXCEPT !.size = IF @ > o THEN @ ELSE o + 1, !.bytes = @ + 1 - Cardinality(old)]]>>)
  /\ UNCHANGED held
SetXa(i) == Idle /\ Alive(i) /\ Do(<<[mem EXCEPT !.xa = @ \cup {<<i, "User", "x">>}]>>) /\ UNCHANGED held
Open(i) == Idle /\ Alive(i) /\ ~IsDir(i) /\ held' = held \cup {i} /\ UNCHANGED <<mem, todo, disk, fails, ready>>
Close(i) ==
  /\ Idle /\ i \in held /\ held' = held \ {i}
  /\ IF mem.ino[i].n = 0 THEN Do(Gone(mem, i)) ELSE UNCHANGED <<mem, todo, disk, fails, ready>>

Sync == (Locked => todo = <<>>) /\ disk' = mem /\ UNCHANGED <<mem, todo, held, fails, ready>>
Fail == fails < MaxFail /\ fails' = fails + 1 /\ mem' = disk /\ todo' = <<>> /\ held' = {} /\ ready' = FALSE /\ UNCHANGED disk
Mount ==
  /\ ~ready /\ todo = <<>>
  /\ IF mem.dying # {} /\ Cleanup THEN LET q == Gone(mem, CHOOSE i \in mem.dying: TRUE) IN mem' = q[1] /\ todo' = Tail(q) /\ UNCHANGED ready
     ELSE ready' = TRUE /\ UNCHANGED <<mem, todo>>
  /\ UNCHANGED <<disk, held, fails>>
Next == \/ Step \/ Sync \/ Fail \/ Mount
        \/ \E d, i \in Ids, nm \in Names: Create(d, nm, i) \/ Mkdir(d, nm, i) \/ MkLink(d, nm, i)
        \/ \E e \in Named: Unlink(e) \/ Rmdir(e) \/ \E d \in Ids, nm \in Names: Rename(e, d, nm)
        \/ \E i \in Ids: Write(i, 0) \/ Write(i, 1) \/ SetXa(i) \/ Open(i) \/ Close(i)
Spec == Init /\ [][Next]_vars
\* At all times what is stored makes sense
SoundNow == todo = <<>> /\ ready => S!Sound(Seqs(mem), held)
SoundDisk == S!Sound(Seqs(disk), DOMAIN disk.ino)
=============================================================================
