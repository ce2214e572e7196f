----------------------------- MODULE CodecTrace -----------------------------
(* Histories of real codecs: new, enc, dec *)
EXTENDS TraceLib, Codec
VARIABLES k, f, data
vars == <<l, k, f, data>>
Init == TraceStart /\ k = 1 /\ f = 1 /\ data = <<>>
New == /\ IsEvent("new") /\ Line.r = "ok"
       /\ Line.prot = Line.f /\ Line.ss = Line.m
       /\ k' = Line.m - Line.f /\ f' = Line.f /\ data' = <<>>
Enc == /\ IsEvent("enc") /\ Line.p = Parity(k, f, Line.d)
       /\ data' = Line.d /\ UNCHANGED <<k, f>>
(* Whatever survives is enough to recover the data columns that don't *)
Dec == /\ IsEvent("dec") /\ Line.r = [i \in DOMAIN Line.missing |-> data[Line.missing[i] + 1]]
       /\ UNCHANGED <<k, f, data>>
CoefE == /\ IsEvent("coef")
         /\ LET n == Line.m - Line.f IN Line.r = [i \in 1..Line.f |-> [j \in 1..n |-> Coef(n, Line.f, i - 1, j - 1)]]
         /\ UNCHANGED <<k, f, data>>
OK(b) == IF b THEN "ok" ELSE "refused"
VanderE ==
  /\ IsEvent("vander") /\ UNCHANGED <<k, f, data>>
  /\ IF VSupported(Line.k, Line.m) /\ Line.n = Line.m * Line.k
     THEN /\ Len(Line.r) = Line.m
          /\ \A i \in 1..Line.m : \A j \in 1..Line.k :
               Line.r[i][j] = (IF i > Line.k THEN VCoef(i - Line.k - 1, j - 1) ELSE IF i = j THEN 1 ELSE 0)
     ELSE Line.r = <<>>
CauchyE ==
  /\ IsEvent("cauchy") /\ UNCHANGED <<k, f, data>>
  /\ Line.r = (IF Line.n = Line.m * Line.k THEN "ok" ELSE "refused")
TablesE ==
  /\ IsEvent("tables") /\ UNCHANGED <<k, f, data>>
  /\ Line.r = OK(Line.a = Line.f * Line.k /\ Line.n = 32 * Line.f * Line.k)
InvertE ==
  /\ IsEvent("invert") /\ UNCHANGED <<k, f, data>>
  /\ IF Line.extra THEN Line.r = "refused"
     ELSE IF Singular(Line.a) THEN Line.r = "singular"
     ELSE Line.r = "ok" /\ Identity(Line.a, Line.b)
EncodeE ==
  /\ IsEvent("encode") /\ UNCHANGED <<k, f, data>>
  /\ Line.r = OK(EncodeCall(Line.k, Line.f, Line.g, Line.d, Line.p))
UpdateE ==
  /\ IsEvent("update") /\ UNCHANGED <<k, f, data>>
  /\ Line.r = OK(UpdateCall(Line.k, Line.f, Line.g, Line.len, Line.n, Line.p, Line.i))
Next == VanderE \/ CauchyE \/ TablesE \/ InvertE \/ EncodeE \/ UpdateE \/ CoefE \/ New \/ Enc \/ Dec
Spec == Init /\ [][Next]_vars
=============================================================================
