----------------------------- MODULE DatasetsMC -----------------------------
(* How the datasets are kept: in one tree (the forest), with an entry for each
   dataset, by its id, that says which its parent is, and one for each child,
   by its parent's id and its name.  Operations look at and change these one by
   one, with others' steps in between, unless a lock keeps them apart.

   Locked: whether creation and destruction exclude each other and everything
   else that they could get in the way of. *)
EXTENDS Datasets, Integers
CONSTANTS Locked, Procs, Names, MaxOps
VARIABLES tree,     \* id -> [parent, own]
          ent,      \* <<parent id, name>> -> id
          abs,      \* the abstract state, which changes when an operation takes effect
          pc, loc, lock, nops, bad
vars == <<tree, ent, abs, pc, loc, lock, nops, bad>>
Paths == UNION {[1..k -> Names] : k \in 0..2}
Idle == [op |-> "none"]
Root == 0
Init == /\ tree = (Root :> [parent |-> -1, own |-> Nothing]) /\ ent = Nothing
        /\ abs = [Empty EXCEPT !.ds = (<<>> :> Root), !.own = (<<>> :> Nothing), !.files = (<<>> :> {})]
        /\ pc = [p \in Procs |-> "idle"] /\ loc = [p \in Procs |-> Idle] /\ lock = [p \in Procs |-> "no"] /\ nops = 0 /\ bad = FALSE
Find(p) == IF p = <<>> THEN (IF Root \in DOMAIN tree THEN Root ELSE -1)
           ELSE LET RECURSIVE F(_, _)
                    F(id, q) == IF q = <<>> THEN id
                                ELSE IF <<id, Head(q)>> \in DOMAIN ent THEN F(ent[<<id, Head(q)>>], Tail(q)) ELSE -1
                IN F(Root, p)
MaxId == LET S == DOMAIN tree \cup {e[1] : e \in DOMAIN ent} IN IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : y <= x
Free(p, how) == IF ~Locked THEN TRUE
                ELSE \A q \in Procs \ {p} : lock[q] = "no" \/ (how = "r" /\ lock[q] = "r")
Begin(p) ==
  /\ pc[p] = "idle" /\ nops < MaxOps
  /\ \E path \in Paths : \E op \in {"create", "destroy", "set"} :
       /\ Free(p, IF op = "set" THEN "r" ELSE "w")
       /\ op = "create" => path # <<>>
       /\ op = "destroy" => path # <<>>
       /\ lock' = [lock EXCEPT ![p] = IF op = "set" THEN "r" ELSE "w"]
       /\ loc' = [loc EXCEPT ![p] = [op |-> op, path |-> path, id |-> -1, par |-> -1, r |-> "none"]]
       /\ pc' = [pc EXCEPT ![p] = "look"]
  /\ nops' = nops + 1 /\ UNCHANGED <<tree, ent, abs, bad>>
Go(p, to, l) == pc' = [pc EXCEPT ![p] = to] /\ loc' = [loc EXCEPT ![p] = l]
L(p) == loc[p]
Look(p) ==
  /\ pc[p] = "look"
  /\ LET par == IF L(p).path = <<>> THEN -1 ELSE Find(Parent(L(p).path))
         id == IF L(p).op = "create" THEN -1 ELSE Find(L(p).path)
     IN IF (L(p).op = "create" /\ par = -1) \/ (L(p).op # "create" /\ id = -1)
        THEN Go(p, "ret", [L(p) EXCEPT !.r = "ENOENT"])
        ELSE Go(p, L(p).op, [L(p) EXCEPT !.id = id, !.par = par])
  /\ UNCHANGED <<tree, ent, abs, lock, nops, bad>>
\* Creation: the next id; the tree; its entry in the parent, and back if there was one
C1(p) ==
  /\ pc[p] = "create" /\ Go(p, "create2", [L(p) EXCEPT !.id = MaxId + 1])
  /\ UNCHANGED <<tree, ent, abs, lock, nops, bad>>
C2(p) ==
  /\ pc[p] = "create2"
  /\ bad' = (bad \/ L(p).id \in DOMAIN tree)
  /\ tree' = (L(p).id :> [parent |-> L(p).par, own |-> Nothing]) @@ tree
  /\ Go(p, "create3", L(p)) /\ UNCHANGED <<ent, abs, lock, nops>>
C3(p) ==
  /\ pc[p] = "create3"
  /\ LET k == <<L(p).par, L(p).path[Len(L(p).path)]>> IN
     IF k \in DOMAIN ent
     THEN /\ tree' = But(tree, L(p).id) /\ Go(p, "ret", [L(p) EXCEPT !.r = "EEXIST"]) /\ UNCHANGED <<ent>>
     ELSE /\ ent' = (k :> L(p).id) @@ ent /\ Go(p, "ret", [L(p) EXCEPT !.r = "ok"]) /\ UNCHANGED tree
  /\ UNCHANGED <<abs, lock, nops, bad>>
\* Destruction: are there children?  Then both entries
D1(p) ==
  /\ pc[p] = "destroy"
  /\ IF \E e \in DOMAIN ent : e[1] = L(p).id THEN Go(p, "ret", [L(p) EXCEPT !.r = "EBUSY"]) ELSE Go(p, "destroy2", L(p))
  /\ UNCHANGED <<tree, ent, abs, lock, nops, bad>>
D2(p) ==
  /\ pc[p] = "destroy2"
  /\ bad' = (bad \/ L(p).id \notin DOMAIN tree)
  /\ tree' = But(tree, L(p).id) /\ ent' = But(ent, <<L(p).par, L(p).path[Len(L(p).path)]>>)
  /\ Go(p, "ret", [L(p) EXCEPT !.r = "ok"]) /\ UNCHANGED <<abs, lock, nops>>
S1(p) ==
  /\ pc[p] = "set"
  /\ bad' = (bad \/ L(p).id \notin DOMAIN tree)
  /\ tree' = IF L(p).id \in DOMAIN tree THEN [tree EXCEPT ![L(p).id].own = ("atime" :> "0") @@ @] ELSE tree
  /\ Go(p, "ret", [L(p) EXCEPT !.r = "ok"]) /\ UNCHANGED <<ent, abs, lock, nops>>
(* With the lock still held, the operation's effect is as specified *)
Ret(p) ==
  /\ pc[p] = "ret"
  /\ LET l == L(p)
         o == [op |-> l.op, n |-> <<Pool>> \o l.path, r |-> l.r, tid |-> l.id, k |-> "atime", v |-> "0", abs |-> TRUE]
         e == Eff(o, abs)
     IN IF e = {} THEN bad' = TRUE /\ UNCHANGED abs
        ELSE abs' = (CHOOSE x \in e : TRUE) /\ UNCHANGED bad
  /\ Go(p, "idle", Idle) /\ lock' = [lock EXCEPT ![p] = "no"]
  /\ UNCHANGED <<tree, ent, nops>>
Next == \E p \in Procs : Begin(p) \/ Look(p) \/ C1(p) \/ C2(p) \/ C3(p) \/ D1(p) \/ D2(p) \/ S1(p) \/ Ret(p)
Spec == Init /\ [][Next]_vars

Good == ~bad
Abstract == Forest(abs) /\ Nearest(abs)
(* What is kept is the specified hierarchy *)
Quiet == \A p \in Procs : pc[p] = "idle"
RECURSIVE PathOf(_)
PathOf(id) == IF id = Root THEN <<>>
              ELSE LET e == CHOOSE e \in DOMAIN ent : ent[e] = id IN Append(PathOf(e[1]), e[2])
Same ==
  Quiet => /\ DOMAIN tree = {abs.ds[p] : p \in DOMAIN abs.ds}
           /\ \A p \in DOMAIN abs.ds : Find(p) = abs.ds[p] /\ tree[abs.ds[p]].own = abs.own[p]
           /\ {ent[e] : e \in DOMAIN ent} = DOMAIN tree \ {Root} /\ Cardinality(DOMAIN ent) = Cardinality(DOMAIN tree \ {Root})
           /\ \A e \in DOMAIN ent : tree[ent[e]].parent = e[1]
=============================================================================
