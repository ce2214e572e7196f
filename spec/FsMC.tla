------------------------------- MODULE FsMC -------------------------------
(* Fs's name space operators keep the file system consistent, whatever the VFS
   does, and a file that somebody holds open stays until it is let go. *)
EXTENDS Fs
CONSTANTS Names, MaxIno, MaxOps
VARIABLES fs, next, held, n
vars == <<fs, next, held, n>>
Z == <<0, 0>>
Dirs == {i \in DOMAIN fs: fs[i].ty = "dir"}
\* Is a the same directory as d or above it?
RECURSIVE Above(_, _, _)
Above(I, a, d) == a = d \/ (d # 1 /\ Above(I, a, I[d].par))
Tick == n < MaxOps /\ n' = n + 1
Init == fs = (1 :> Root(493, 0, 0, Z)) /\ next = 2 /\ held = {} /\ n = 0
DoCreate == \E p \in Dirs, m \in Names, ty \in {"reg", "dir"}:
              /\ m \notin DOMAIN fs[p].ents /\ next <= MaxIno
              /\ fs' = Create(fs, p, m, next, ty, 420, 0, 0, 0, "", 2, Z)
              /\ next' = next + 1
              /\ UNCHANGED held
DoLink == \E p \in Dirs, m \in Names, i \in DOMAIN fs:
              /\ m \notin DOMAIN fs[p].ents /\ fs[i].ty = "reg" /\ fs[i].nlink > 0
              /\ fs' = Link(fs, p, m, i, Z) /\ UNCHANGED <<next, held>>
DoUnlink == \E p \in Dirs: \E m \in DOMAIN fs[p].ents:
              LET i == fs[p].ents[m] IN
              /\ fs[i].ty = "reg"
              /\ fs' = Unlink(fs, p, m, i \in held, Z).fs /\ UNCHANGED <<next, held>>
DoRmdir == \E p \in Dirs: \E m \in DOMAIN fs[p].ents:
              /\ fs[fs[p].ents[m]].ty = "dir"
              /\ fs' = Rmdir(fs, p, m, Z).fs /\ UNCHANGED <<next, held>>
\* What rename(2) may ask of a file system: see nodes of the same type, no directory into itself
DoRename == \E p \in Dirs, q \in Dirs: \E m \in DOMAIN fs[p].ents, w \in Names:
              LET i == fs[p].ents[m]
                  isdir == fs[i].ty = "dir"
              IN /\ isdir => ~Above(fs, i, q)
                 /\ w \in DOMAIN fs[q].ents => LET d == fs[q].ents[w] IN d # i /\ fs[d].ty = fs[i].ty /\ d \notin held
                 /\ fs' = Rename(fs, p, m, q, w, Z).fs
                 /\ UNCHANGED <<next, held>>
DoHold == \E i \in DOMAIN fs: fs[i].ty = "reg" /\ fs[i].nlink > 0 /\ held' = held \cup {i} /\ UNCHANGED <<fs, next>>
DoForget == \E i \in held: fs' = Forget(fs, i) /\ held' = held \ {i} /\ UNCHANGED next
DoMount == fs' = Mounted(fs) /\ held' = {} /\ UNCHANGED next
Next == Tick /\ (DoCreate \/ DoLink \/ DoUnlink \/ DoRmdir \/ DoRename \/ DoHold \/ DoForget \/ DoMount)
Spec == Init /\ [][Next]_vars

Inv == Consistent(fs)
\* Open files are there, and those without links are there for no other reason
Held == /\ held \subseteq DOMAIN fs
        /\ \A i \in DOMAIN fs: fs[i].nlink = 0 => i \in held
\* Everything is reachable from the root
Reach == \A i \in Dirs: Above(fs, 1, i)
View == <<fs, next, held>>
=============================================================================
