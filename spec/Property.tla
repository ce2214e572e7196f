------------------------------ MODULE Property ------------------------------
(* Dataset properties: how they're written by users, shown, and stored *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Names == [atime |-> "atime", basemountpoint |-> "basemountpoint", mountpoint |-> "mountpoint", name |-> "name",
          recordsize |-> "recordsize", recsize |-> "recordsize"]
IsName(s) == s \in DOMAIN Names
(* Record sizes are powers of 2, and stored as the exponent *)
Exps == 12..20
Shown == [e \in Exps |-> ToString(2 ^ e)]
(* 1048776 was once mistaken for 2^20, and may still be accepted *)
ExpOf(s) == IF s = "1048776" THEN 20 ELSE CHOOSE e \in Exps : Shown[e] = s
IsSize(s) == \E e \in Exps : Shown[e] = s
Truth == [true |-> "true", on |-> "true", false |-> "false", off |-> "false"]

LE32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
Str(b) == LE32(Len(b)) \o b
Tag == [atime |-> 0, basemountpoint |-> 1, mountpoint |-> 2, name |-> 3, recordsize |-> 4]

(* What's made of "name", or "name=value": an error, or <<"ok", <<property, value>>>>.
   A set of what's acceptable *)
Parse(s, eq, value, canon) ==
  IF ~IsName(s) THEN {<<"name">>}
  ELSE LET p == Names[s] IN
    IF ~eq /\ p # "atime" THEN {<<"noequals">>}
    ELSE CASE p \in {"basemountpoint", "name"} -> {<<"readonly">>}
           [] p = "mountpoint" -> {<<"ok", <<p, value>>>>}
           [] p = "atime" ->
                IF ~eq THEN {<<"ok", <<p, "true">>>>}
                ELSE IF value \in DOMAIN Truth THEN {<<"ok", <<p, Truth[value]>>>>} ELSE {<<"value">>}
           [] p = "recordsize" ->
                IF IsSize(value) THEN {<<"ok", <<p, ToString(ExpOf(value))>>>>}
                (* Whether other ways to write the same number are understood is unspecified *)
                ELSE IF IsSize(canon) \/ canon = "1048776" THEN {<<"value">>, <<"ok", <<p, ToString(ExpOf(canon))>>>>}
                ELSE {<<"value">>}
Show(p, v) ==
  CASE p = "atime" -> IF v = "true" THEN "on" ELSE "off"
    [] p = "recordsize" -> Shown[CHOOSE e \in Exps : ToString(e) = v]
    [] OTHER -> v
Ser(p, v, vb) ==
  CASE p = "atime" -> LE32(0) \o <<IF v = "true" THEN 1 ELSE 0>>
    [] p = "recordsize" -> LE32(4) \o <<CHOOSE e \in Exps : ToString(e) = v>>
    [] OTHER -> LE32(Tag[p]) \o Str(vb)
(* The property by which children inherit *)
Inh(p, v) == IF p = "mountpoint" THEN <<"basemountpoint", v>> ELSE <<p, v>>
Default == [atime |-> "true", basemountpoint |-> "", recordsize |-> "17"]

SourceShown(i) == IF i = -2 THEN "none" ELSE IF i = -1 THEN "default" ELSE IF i = 0 THEN "local" ELSE "inherited"
SourceSer(i) == IF i = -2 THEN LE32(0) ELSE IF i = -1 THEN LE32(1) ELSE LE32(2) \o <<i>>

(* What is shown is understood again, as the same *)
RoundTrip == \A e \in Exps : ExpOf(Show("recordsize", ToString(e))) = e
ASSUME RoundTrip
=============================================================================
