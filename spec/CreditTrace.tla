---------------------------- MODULE CreditTrace -----------------------------
(* Two kinds of histories: moves among purses by one thread; and several threads
   that take pieces of one Credit at once, whose calls take effect in between *)
EXTENDS TraceLib, Credit
Threads == 0..3
VARIABLES want, got     \* Of threads: -1 if none
vars == <<l, cap, purse, bank, want, got>>
None == [t \in Threads |-> -1]
Init == TraceStart /\ cap = 0 /\ purse = <<>> /\ bank = 0 /\ want = None /\ got = None
New == /\ IsEvent("new") /\ cap' = Line.cap /\ Line.said = Line.cap
       /\ purse' = IF Line.np = 0 THEN <<Line.cap>> ELSE [i \in 1..Line.np |-> 0]
       /\ bank' = IF Line.np = 0 THEN 0 ELSE Line.cap
       /\ want' = None /\ got' = None
V == Line.v = purse' /\ UNCHANGED <<want, got>>
I == Line.i + 1
J == Line.j + 1
BorrowE == /\ IsEvent("borrow")
           /\ IF Line.ok THEN Borrow(I, Line.n) ELSE Line.n > bank /\ UNCHANGED cvars
           /\ V
MoveE(e, n) == IsEvent(e) /\ Line.r = n /\ Move(I, J, n) /\ V
SplitE == MoveE("split", SplitAmt(I, Line.n))
AsplitE == MoveE("asplit", SplitAmt(I, Line.n))
IsplitE == MoveE("isplit", Line.n)
HalveE == MoveE("halve", HalveAmt(I))
TakeE == MoveE("take", purse[I])
RepayE == IsEvent("repay") /\ Repay(I) /\ V
CmpE == /\ IsEvent("cmp") /\ Line.eq = (purse[I] = Line.n) /\ Line.lt = (purse[I] < Line.n)
        /\ Line.gt = (purse[I] > Line.n) /\ Line.ge = (purse[I] >= Line.n) /\ Line.null = (purse[I] = 0)
        /\ UNCHANGED cvars /\ V
ArithE == IsEvent("arith") /\ Line.a = purse[I] + Line.n /\ Line.s = purse[I] - Line.n /\ UNCHANGED cvars /\ V
Nop == IsEvent("nop") /\ UNCHANGED cvars /\ V
Lose == IsEvent("lose") /\ Line.noticed /\ UNCHANGED <<cap, purse, bank, want, got>>
End == /\ IsEvent("end") /\ Line.total = Sum(purse) /\ bank + Line.total = cap
       /\ Line.total >= 0 => Line.full
       /\ UNCHANGED <<cap, purse, bank, want, got>>

Call == IsEvent("call") /\ want[Line.t] = -1 /\ want' = [want EXCEPT ![Line.t] = Line.n] /\ UNCHANGED <<cap, purse, bank, got>>
Effect(t) ==
  /\ want[t] >= 0 /\ got[t] = -1
  /\ got' = [got EXCEPT ![t] = SplitAmt(1, want[t])]
  /\ purse' = <<purse[1] - SplitAmt(1, want[t])>>
  /\ UNCHANGED <<cap, bank, want>>
Ret == /\ IsEvent("ret") /\ got[Line.t] = Line.r
       /\ want' = [want EXCEPT ![Line.t] = -1] /\ got' = [got EXCEPT ![Line.t] = -1] /\ UNCHANGED <<cap, purse, bank>>
Left == IsEvent("left") /\ Line.r = purse[1] /\ Line.all /\ UNCHANGED <<cap, purse, bank, want, got>>
Next == \/ New \/ BorrowE \/ SplitE \/ AsplitE \/ IsplitE \/ HalveE \/ TakeE \/ RepayE \/ CmpE \/ ArithE \/ Nop \/ Lose \/ End
        \/ Call \/ Ret \/ Left
        \/ (l <= NTrace /\ Line.e \in {"call", "ret"} /\ (\E t \in Threads : Effect(t)) /\ UNCHANGED l)
Spec == Init /\ [][Next]_vars
=============================================================================
