------------------------------- MODULE Codec --------------------------------
(* The erasure code of one stripe.  A stripe has m columns: the first k = m-f
   hold data, the others parity.  Columns are byte strings of the same length,
   and every byte position is coded on its own: parity byte i is the sum, in
   GF(2^8) modulo x^8+x^4+x^3+x^2+1, of the data bytes times the coefficients
   of row i.  With one parity column that's the bytes' exclusive or.  With more
   it's a Cauchy matrix, all of whose square submatrices can be inverted, so
   that any k columns determine the others.

   The code is an on-disk format: what one version of the program has written,
   all others must be able to read. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Bitwise

(* Powers of the generator 2 *)
RECURSIVE ExpFrom(_, _)
ExpFrom(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o ExpFrom(IF 2 * x >= 256 THEN (2 * x) ^^ 285 ELSE 2 * x, n - 1)
Exp == ExpFrom(1, 255)                       \* Exp[i+1] = 2^i
Log == [x \in 1..255 |-> (CHOOSE i \in 1..255 : Exp[i] = x) - 1]
Mul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE Exp[((Log[a] + Log[b]) % 255) + 1]
Inv(a) == Exp[((255 - Log[a]) % 255) + 1]

(* Coefficient of data column j (from 0) in parity column i (from 0) *)
Coef(k, f, i, j) == IF f = 1 THEN 1 ELSE Inv((k + i) ^^ j)

(* d: a sequence of k equally long byte strings *)
RECURSIVE Dot(_, _, _, _, _, _)
Dot(k, f, i, d, x, j) == IF j = k THEN 0 ELSE Mul(Coef(k, f, i, j), d[j + 1][x]) ^^ Dot(k, f, i, d, x, j + 1)
Parity(k, f, d) == [i \in 1..f |-> [x \in 1..Len(d[1]) |-> Dot(k, f, i - 1, d, x, 0)]]

(* The determinant of the matrix of rows rs and columns cs, sequences of the same length *)
Without(s, i) == [x \in 1..(Len(s) - 1) |-> IF x < i THEN s[x] ELSE s[x + 1]]
RECURSIVE Det(_, _, _, _)
RECURSIVE DetSum(_, _, _, _, _)
Det(k, f, rs, cs) == IF Len(rs) = 0 THEN 1 ELSE DetSum(k, f, rs, cs, 1)
DetSum(k, f, rs, cs, i) ==
  IF i > Len(cs) THEN 0
  ELSE Mul(Coef(k, f, Head(rs), cs[i]), Det(k, f, Tail(rs), Without(cs, i))) ^^ DetSum(k, f, rs, cs, i + 1)

(* All increasing sequences of n numbers out of lo..hi *)
RECURSIVE Incr(_, _, _)
Incr(lo, hi, n) ==
  IF n = 0 THEN {<<>>}
  ELSE UNION {{<<a>> \o s : s \in Incr(a + 1, hi, n - 1)} : a \in lo..hi}

(* Any f lost columns can be recovered: the loss of the data columns cs is made
   good by as many of the surviving parity columns *)
Recoverable(k, f) ==
  \A n \in 1..(IF f < k THEN f ELSE k) :
    \A rs \in Incr(0, f - 1, n) : \A cs \in Incr(0, k - 1, n) : Det(k, f, rs, cs) # 0

(* The Vandermonde matrix that also serves as a code, as long as it isn't too
   large: parity row i is the powers of 2^i *)
VCoef(i, j) == Exp[((i * j) % 255) + 1]
VSupported(k, m) ==
  \/ k <= 3
  \/ k = 4 /\ m <= 25
  \/ k = 5 /\ m <= 10
  \/ k <= 21 /\ m - k = 4
  \/ m - k <= 3

(* Determinant of the square matrix a, a sequence of rows *)
RECURSIVE MDet(_, _, _)
RECURSIVE MDetSum(_, _, _, _)
MDet(a, rs, cs) == IF Len(rs) = 0 THEN 1 ELSE MDetSum(a, rs, cs, 1)
MDetSum(a, rs, cs, i) ==
  IF i > Len(cs) THEN 0
  ELSE Mul(a[Head(rs)][cs[i]], MDet(a, Tail(rs), Without(cs, i))) ^^ MDetSum(a, rs, cs, i + 1)
Singular(a) == LET s == [i \in 1..Len(a) |-> i] IN MDet(a, s, s) = 0
RECURSIVE MDot(_, _, _, _, _)
MDot(a, b, i, j, x) == IF x = 0 THEN 0 ELSE Mul(a[i][x], b[x][j]) ^^ MDot(a, b, i, j, x - 1)
Identity(a, b) == \A i, j \in 1..Len(a) : MDot(a, b, i, j, Len(a)) = (IF i = j THEN 1 ELSE 0)
(* Every submatrix of the parity rows of a Vandermonde code of f parities *)
VRecoverable(k, f) ==
  LET v == [i \in 1..f |-> [j \in 1..k |-> VCoef(i - 1, j - 1)]] IN
  \A n \in 1..(IF f < k THEN f ELSE k) :
    \A rs \in Incr(1, f, n) : \A cs \in Incr(1, k, n) : MDet(v, rs, cs) # 0

(* What a call on the coding functions must satisfy, or be refused: g = bytes of
   tables, d = number of data columns, p = number of parity columns *)
EncodeCall(k, f, g, d, p) == g = 32 * k * f /\ d = k /\ p = f
UpdateCall(k, f, g, len, n, p, i) == g = 32 * k * f /\ n = len /\ p = f /\ i < k
=============================================================================
