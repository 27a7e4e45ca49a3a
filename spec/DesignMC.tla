---- MODULE DesignMC ----
(***************************************************************************)
(* Design model of the samplers: the environment makes objects, asks them   *)
(* for designs with any of the seeds, in any order, and saves; the designs  *)
(* are whatever the rules allow, but one function of space, counts, seed.   *)
(* One variable on [0, 4]; candidate points lie in the four quarters.       *)
(***************************************************************************)
EXTENDS Design
CONSTANTS Kinds, MaxObjs, MaxOps, Seeds, Names, MaxN
VARIABLES st, ops
vars == <<st, ops>>

S1 == << <<"0", "4">> >>
Pt(k, f) == <<DAdd(k, IF f = 1 THEN "0.5" ELSE "0.75")>>          \* quarter k, fidelity f
SobolRow(i, seed) == CASE seed = 1 -> (<<"0.25", "2.25", "1.25", "3.25">>)[i]
                       [] OTHER -> (<<"3.5", "1.5", "2.5", "0.5">>)[i]
Makes == { [op |-> "make", kind |-> k, spaces |-> IF k \in {"mflhs", "mfsobol"} THEN <<S1, S1>> ELSE <<S1>>,
            nested |-> b, skip |-> s, exc |-> "none"]
           : k \in Kinds, b \in BOOLEAN, s \in {-1, 0, 1} }
GoodMake(m) == /\ m.nested => m.kind \in {"mflhs", "mfsobol"}
               /\ IF m.kind \in {"sobol", "mfsobol"} THEN m.skip >= 0 ELSE m.skip = -1
CountsOf(o) == IF Multi(o) THEN {<<a, b>> : a \in 0..MaxN, b \in 0..MaxN} ELSE {<<a>> : a \in 0..MaxN}
(* Latin hypercube designs of n <= 2 points                                   *)
Latin(n, f) == CASE n = 0 -> {<<>>}
                 [] n = 1 -> {<<Pt(k, f)>> : k \in {0, 3}}
                 [] OTHER -> {<<Pt(0, f), Pt(2, f)>>, <<Pt(3, f), Pt(1, f)>>}
Sobol(o, n, seed) == [k \in 1..n |-> <<SobolRow(o.skip + k, seed)>>]
Picks(D, n) == {p \in [1..n -> 1..Len(D)] : \A a, b \in 1..n : a # b => p[a] # p[b]}
Raw(o, c, seed) ==
    CASE o.kind = "fixed" -> { <<[k \in 1..c[1] |-> Flat(S1)]>> }
      [] o.kind \in {"lhs"} -> { <<D>> : D \in Latin(c[1], 1) }
      [] o.kind = "random" -> { <<[k \in 1..c[1] |-> Pt(g[k], 1)]>> : g \in [1..c[1] -> {0, 3}] }
      [] o.kind = "sobol" -> { <<Sobol(o, c[1], seed)>> }
      [] o.kind = "mflhs" /\ o.nested -> UNION { { <<[k \in 1..c[1] |-> D[p[k]]], D>> : p \in Picks(D, c[1]) } : D \in Latin(c[2], 2) }
      [] o.kind = "mflhs" -> { <<D, E>> : D \in Latin(c[1], 1), E \in Latin(c[2], 2) }
      [] OTHER -> { <<Sobol(o, c[1], seed), Sobol(o, c[2], seed)>> }
Req(k, c, seed, exc, D) == [op |-> "request", obj |-> k, counts |-> c, counts1 |-> c, seed |-> seed, exc |-> exc,
                            design |-> D, space0 |-> "s", space1 |-> "s"]
Known(o, c, seed) == {i \in 1..Len(st.seen) : st.seen[i].key = Key(o, [counts |-> c, seed |-> seed])}
Designs(k, c, seed) ==
    LET o == st.objs[k] IN
    IF Known(o, c, seed) # {} THEN { st.seen[CHOOSE i \in Known(o, c, seed) : TRUE].design }
    ELSE { D \in Raw(o, c, seed) :
             (o.kind \in {"lhs", "random", "mflhs"} /\ c[Len(c)] > 0) =>
               \A i \in 1..Len(st.seen) : SameSource(st.seen[i].key, Key(o, [counts |-> c, seed |-> seed])) => st.seen[i].design # D }
Requests == UNION { UNION { IF Multi(st.objs[k]) /\ Decreasing(c) THEN { Req(k, c, seed, "AssertionError", <<>>) }
                            ELSE { Req(k, c, seed, "none", D) : D \in Designs(k, c, seed) }
                            : c \in CountsOf(st.objs[k]), seed \in Seeds } : k \in 1..Len(st.objs) }
Saves == { LET e0 == [op |-> "save", obj |-> k, name |-> n, exc |-> "none", design0 |-> "d", design1 |-> "d"]
           IN [files |-> AfterSave(st, e0)] @@ e0 : k \in {k \in 1..Len(st.objs) : st.objs[k].has}, n \in Names }
Allowed == IF ops = MaxOps THEN {} ELSE
           (IF Len(st.objs) < MaxObjs THEN {m \in Makes : GoodMake(m)} ELSE {}) \cup Requests \cup Saves
Init == st = NoState /\ ops = 0
Next == \E e \in Allowed : st' = Eff(st, e) /\ ops' = ops + 1
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Conform == \A e \in Allowed : Bad(st, e) = {}
Corrupt(o, e) ==
    LET n == Len(e.counts)  D == e.design IN
    { [e EXCEPT !.exc = "ValueError"], [e EXCEPT !.space1 = "t"], [e EXCEPT !.counts1 = <<>>],
      [e EXCEPT !.design = Append(D, <<>>)], [e EXCEPT !.design[n] = Append(@, <<"1">>)] }
    \cup (IF e.counts[n] = 0 THEN {} ELSE
          { [e EXCEPT !.design[n] = Tail(@)], [e EXCEPT !.design[n][1] = <<"4.5">>], [e EXCEPT !.design[n][1] = <<"1", "1">>] })
    \cup (IF e.counts[n] = 2 /\ o.kind \in {"lhs", "mflhs"} THEN { [e EXCEPT !.design[n][1] = D[n][2]] } ELSE {})
    \cup (IF o.nested /\ e.counts[1] > 0 THEN { [e EXCEPT !.design[1][1] = <<"3.9">>] } ELSE {})
    \cup (IF o.nested /\ e.counts[1] = 2 THEN { [e EXCEPT !.design[1][1] = D[1][2]] } ELSE {})
    \cup (IF o.kind = "mfsobol" /\ ~o.nested /\ e.counts[1] > 0 THEN { [e EXCEPT !.design[1][1] = <<"3.9">>] } ELSE {})
    \cup (IF o.kind = "mflhs" /\ ~o.nested /\ e.counts[1] > 0 THEN { [e EXCEPT !.design[1] = SubSeq(D[2], 1, e.counts[1])] } ELSE {})
    \cup (IF e.counts[n] > 0 /\ Known(o, e.counts, e.seed) # {} THEN { [e EXCEPT !.design[n][1] = <<"3.9">>] } ELSE {})
    \cup (IF e.counts[n] > 0 /\ o.kind = "sobol" /\ (\E i \in 1..Len(st.seen) : st.seen[i].key[1] = "sobol" /\ st.seen[i].key[6] = e.seed
               /\ st.seen[i].key[4] <= o.skip /\ o.skip < st.seen[i].key[4] + st.seen[i].key[5][1])
          THEN { [e EXCEPT !.design[1][1] = <<"3.9">>] } ELSE {})
Mutants(e) ==
    CASE e.op = "request" -> IF e.exc # "none" THEN { [e EXCEPT !.exc = "none", !.design = <<>>], [e EXCEPT !.exc = "ValueError"] }
                             ELSE Corrupt(st.objs[e.obj], e)
      [] e.op = "save" -> { [e EXCEPT !.exc = "OSError"], [e EXCEPT !.files = Tail(@)], [e EXCEPT !.design1 = "x"],
                            [e EXCEPT !.files = Append(@, [name |-> "zz", design |-> <<>>])],
                            [e EXCEPT !.files[1].design = <<>>], [e EXCEPT !.files[Len(e.files)].design = <<>>],
                            [e EXCEPT !.files[1].name = "zz"] }
      [] OTHER -> {}
Rejects == \A e \in Allowed : \A m \in Mutants(e) : Bad(st, m) # {}
(* properties over the history                                               *)
InvSeen == \A i, k \in 1..Len(st.seen) : st.seen[i].key = st.seen[k].key => st.seen[i].design = st.seen[k].design
InvNested == \A i \in 1..Len(st.seen) : st.seen[i].key[3] => RowsOf(st.seen[i].design[1]) \subseteq RowsOf(st.seen[i].design[2])
                                        /\ Cardinality(RowsOf(st.seen[i].design[1])) = Len(st.seen[i].design[1])
InvRows == \A i \in 1..Len(st.seen) : LET k == st.seen[i].key IN
             k[1] \in {"sobol", "mfsobol"} =>
               \A f \in 1..Len(k[5]) : \A r \in 1..k[5][f] :
                 KnownRows(st, <<k[1], k[2], k[6]>>)[k[4] + r] = st.seen[i].design[f][r]
InvFiles == \A i \in 1..Len(st.files) : st.files[i].design # <<>>
OneFile == [][\A n \in Names : Content(st'.files, n) # Content(st.files, n) => \A m \in Names \ {n} : Content(st'.files, m) = Content(st.files, m)]_vars
====
