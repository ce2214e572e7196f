--------------------------- MODULE DatasetsTrace ----------------------------
(* Whether histories of concurrent operations on datasets are explained: each
   takes effect at one moment between its invocation and its return *)
EXTENDS TraceLib, Datasets
VARIABLES cfg,   \* set of <<state, operations under way that have taken effect>>
          pend   \* operation under way -> where it began
vars == <<l, cfg, pend>>
Init == TraceStart /\ cfg = {} /\ pend = <<>>
New == /\ IsEvent("new") /\ cfg' = {<<Empty, {}>>} /\ pend' = [x \in {} |-> 0]
RECURSIVE Closure(_, _)
Closure(cs, busy) ==
  LET more == UNION {{<<s, c[2] \cup {p}>> : s \in Eff(Trace[pend[p]], c[1])} : <<c, p>> \in {x \in cs \X busy : x[2] \notin x[1][2]}}
  IN IF more \subseteq cs THEN cs ELSE Closure(cs \cup more, busy)
Inv == /\ IsEvent("inv") /\ pend' = (Line.id :> l) @@ pend /\ UNCHANGED cfg
Ret ==
  /\ IsEvent("ret")
  /\ LET id == Line.id
         n == {<<c[1], c[2] \ {id}>> : c \in {x \in Closure(cfg, DOMAIN pend) : id \in x[2]}}
     IN n # {} /\ cfg' = n
  /\ pend' = [p \in DOMAIN pend \ {Line.id} |-> pend[p]]
(* The pool is exported and imported *)
Reopen ==
  /\ IsEvent("reopen") /\ DOMAIN pend = {} /\ Line.r = "ok" /\ Line.check = "true"
  /\ cfg' = {<<[c[1] EXCEPT !.up = {}], {}>> : c \in cfg} /\ UNCHANGED pend
\* How many trees the forest has, reachable or not
Trees == /\ IsEvent("trees") /\ DOMAIN pend = {}
         /\ cfg' = {c \in cfg : {Line.ids[i] : i \in DOMAIN Line.ids} = {c[1].ds[p] : p \in DOMAIN c[1].ds} /\ Forest(c[1])}
         /\ cfg' # {} /\ UNCHANGED pend
Next == New \/ Inv \/ Ret \/ Reopen \/ Trees
Spec == Init /\ [][Next]_vars
=============================================================================
