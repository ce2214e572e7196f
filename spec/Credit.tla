------------------------------- MODULE Credit -------------------------------
(* Write-back credit as money: it's moved among purses, but never made or
   destroyed.  purse[i] is the amount, in bytes; it may be negative, but only by
   a signed split. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES cap, purse, bank
cvars == <<cap, purse, bank>>

Min2(a, b) == IF a < b THEN a ELSE b
Move(i, j, n) ==
  /\ purse' = IF i = j THEN purse ELSE [purse EXCEPT ![i] = @ - n, ![j] = @ + n]
  /\ UNCHANGED <<cap, bank>>
Borrow(i, n) == n <= bank /\ bank' = bank - n /\ purse' = [purse EXCEPT ![i] = @ + n] /\ UNCHANGED cap
(* No more than there is *)
SplitAmt(i, n) == Min2(n, purse[i])
HalveAmt(i) == purse[i] \div 2
Repay(i) == purse[i] >= 0 /\ bank' = bank + purse[i] /\ purse' = [purse EXCEPT ![i] = 0] /\ UNCHANGED cap
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Conserved == bank + Sum(purse) = cap
=============================================================================
