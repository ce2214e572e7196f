---------------------------- MODULE PrimeSTrace -----------------------------
(* What real layouts answer: new, loc (chunk to place), inv (place to chunk), iter *)
EXTENDS TraceLib, PrimeS
VARIABLES n, k, f
vars == <<l, n, k, f>>
Init == TraceStart /\ n = 2 /\ k = 2 /\ f = 1
New == /\ IsEvent("new") /\ Line.r = "ok"
       /\ n' = Line.n /\ k' = Line.k /\ f' = Line.f
       /\ Line.dc = Datachunks(n', k', f') /\ Line.depth = Depth(n', k')
       /\ Line.disks = n' /\ Line.prot = f' /\ Line.ss = k'
LocE == /\ IsEvent("loc")
        /\ Line.d = DiskOf(n, k, f, Line.id) /\ Line.o = OffsetOf(n, k, f, Line.id)
        /\ Line.back = Line.id
        /\ UNCHANGED <<n, k, f>>
InvE == /\ IsEvent("inv") /\ IsAt(n, k, f, Line.id, Line.d, Line.o)
        /\ UNCHANGED <<n, k, f>>
(* From chunk a up to, but without, chunk b *)
IterE ==
  /\ IsEvent("iter")
  /\ LET ra == Rank(k, f, Line.a)
         rb == Rank(k, f, Line.b)
         len == IF rb - ra < Line.max THEN rb - ra ELSE Line.max
     IN /\ Len(Line.v) = len
        /\ \A i \in 1..len :
             LET id == Nth(k, f, ra + i - 1)
             IN Line.v[i] = <<id, DiskOf(n, k, f, id), OffsetOf(n, k, f, id)>>
  /\ UNCHANGED <<n, k, f>>
(* The rep'th repetition.  The stripe is among the first, so that the next chunk is in the same repetition *)
Far == /\ IsEvent("far")
       /\ Line.d = DiskOf(n, k, f, Line.id) /\ Line.o = OffsetOf(n, k, f, Line.id) /\ Line.orep = Line.rep
       /\ Line.back = <<Line.rep, Line.id[1], Line.id[2]>>
       /\ LET r == Rank(k, f, Line.id) + 1
              id == Nth(k, f, r)
          IN \/ r >= SPR(n) * k
             \/ Line.next = <<<<Line.rep, id[1], id[2]>>, DiskOf(n, k, f, id), Line.rep, OffsetOf(n, k, f, id)>>
       /\ UNCHANGED <<n, k, f>>
(* There is no such layout, and nobody is given one *)
Possible(nn, kk, ff) ==
  /\ nn > 1 /\ nn <= 215 /\ \A d \in 2..(nn - 1) : nn % d # 0
  /\ kk > 1 /\ kk <= nn /\ ff > 0 /\ ff < kk
Bad == IsEvent("bad") /\ ~Possible(Line.n, Line.k, Line.f) /\ Line.r = "panic" /\ UNCHANGED <<n, k, f>>
Next == Bad \/ Far \/ New \/ LocE \/ InvE \/ IterE
Spec == Init /\ [][Next]_vars
=============================================================================
