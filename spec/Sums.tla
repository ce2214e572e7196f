-------------------------------- MODULE Sums --------------------------------
(* Sums over sequences that may be long, for which TLC's stack is too short otherwise *)
EXTENDS Naturals, Sequences
RECURSIVE SumOf(_, _, _, _)
\* The sum of the kth fields of q[i] to q[j]
SumOf(q, k, i, j) == IF i > j THEN 0 ELSE IF i = j THEN q[i][k] ELSE LET m == (i + j) \div 2 IN SumOf(q, k, i, m) + SumOf(q, k, m + 1, j)
Sum(q, k) == SumOf(q, k, 1, Len(q))
=============================================================================
