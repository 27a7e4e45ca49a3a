---- MODULE Design ----
(***************************************************************************)
(* Samplers as objects answering requests, and the files they save.         *)
(*                                                                          *)
(*  make     a sampler object (kind, design space(s), nesting, skipped)     *)
(*  request  counts and seed; the design returned, one matrix per fidelity  *)
(*           with the highest fidelity first (one matrix for the others)    *)
(*  save     an object writes its design; every saved file is read back     *)
(***************************************************************************)
EXTENDS Dec, FiniteSets, TLC

If(c, name) == IF c THEN {} ELSE {name}
NoState == [objs |-> <<>>, seen |-> <<>>, rows |-> <<>>, files |-> <<>>]
Multi(o) == o.kind \in {"mflhs", "mfsobol"}
Space(o, f) == o.spaces[IF Len(o.spaces) >= f THEN f ELSE 1]
Dims(o) == Len(o.spaces[1])
Lo(S, j) == S[j][1]
Hi(S, j) == S[j][2]
Width(S, j) == DSub(Hi(S, j), Lo(S, j))
Eps(S, j) == DAdd(DMul("1e-9", Width(S, j)), DMul("1e-13", DMax2(DAbs(Lo(S, j)), DAbs(Hi(S, j)))))
InSpace(S, x) == Len(x) = Len(S) /\ \A j \in 1..Len(S) : DLe(Lo(S, j), x[j]) /\ DLe(x[j], Hi(S, j))
Degenerate(S) == \A j \in 1..Len(S) : DEq(Lo(S, j), Hi(S, j))

(* exactly one of the n points in each of the n equal slices of variable j    *)
Below(D, j, t) == Cardinality({k \in 1..Len(D) : DLt(D[k][j], t)})
Stratified(S, D, j) ==
    LET n == Len(D)
        cut(k) == DAdd(Lo(S, j), DDiv(DMul(k, Width(S, j)), n))
    IN \A k \in 0..n : /\ Below(D, j, DSub(cut(k), Eps(S, j))) <= k
                       /\ (k = n \/ Below(D, j, DAdd(cut(k), Eps(S, j))) >= k)
AllStratified(S, D) == \A j \in 1..Len(S) : DLt(DMul(1000, Eps(S, j)), Width(S, j)) => Stratified(S, D, j)
PowersOfTwo == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512}

(* D is a selection without repetition of the rows of E                       *)
Count(D, r) == Cardinality({k \in 1..Len(D) : D[k] = r})
Selection(D, E) == \A k \in 1..Len(D) : Count(D, D[k]) <= Count(E, D[k])
RowsOf(D) == {D[k] : k \in 1..Len(D)}

Flat(S) == [k \in 1..(2 * Len(S)) |-> S[(k + 1) \div 2][IF k % 2 = 1 THEN 1 ELSE 2]]
Decreasing(c) == \E k \in 1..(Len(c) - 1) : c[k] > c[k + 1]

Key(o, e) == <<o.kind, o.spaces, o.nested, o.skip, e.counts, e.seed>>
SameSource(k, l) == SubSeq(k, 1, 5) = SubSeq(l, 1, 5)      \* all but the seed
SobolKey(o, e) == <<o.kind, o.spaces, e.seed>>
KnownRows(s, k) == IF \E i \in 1..Len(s.rows) : s.rows[i].key = k
                   THEN s.rows[CHOOSE i \in 1..Len(s.rows) : s.rows[i].key = k].map ELSE <<>>
Level(o, D, f) == Len(D) > 0 /\ (~o.nested \/ f = Len(D))     \* drawn on its own

BadDesign(s, o, e) ==
    LET D == e.design  n == Len(e.counts)  F == 1..n
        shaped == /\ Len(D) = n
                  /\ \A f \in F : /\ Len(D[f]) = e.counts[f]
                                  /\ \A k \in 1..Len(D[f]) : Len(D[f][k]) = IF o.kind = "fixed" THEN 2 * Dims(o) ELSE Dims(o)
        one == \A f \in 2..Len(o.spaces) : o.spaces[f] = o.spaces[1]
        K == SobolKey(o, e)
        M == KnownRows(s, K)
    IN IF ~shaped THEN {"D01.shape", "D02.counts"}
       ELSE IF o.kind = "fixed" THEN If(\A k \in 1..Len(D[1]) : D[1][k] = Flat(o.spaces[1]), "D01.repeated_space")
       ELSE If(\A f \in F : ~Multi(o) \/ ~o.nested \/ f = n => \A k \in 1..Len(D[f]) : InSpace(Space(o, f), D[f][k]), "D01.outside")
       \cup If(o.nested => \A f \in 1..(n - 1) : Selection(D[f], D[f + 1]), "D02.nesting")
       \cup If((o.kind = "mflhs" /\ ~o.nested) =>
                 \A f \in 1..(n - 1) : \A g \in (f + 1)..n : Degenerate(Space(o, f)) \/ RowsOf(D[f]) \cap RowsOf(D[g]) = {}, "D02.own_design")
       \cup If(o.kind \in {"lhs", "mflhs"} =>
                 \A f \in F : (o.nested /\ f # n) \/ AllStratified(Space(o, f), D[f]), "D04.latin")
       \cup If(o.kind \in {"sobol", "mfsobol"} =>
                 \A f \in F : ((o.nested /\ f # n) \/ o.skip < 0 \/ Len(D[f]) \notin PowersOfTwo)
                              \/ (o.skip % Len(D[f]) # 0) \/ AllStratified(Space(o, f), D[f]), "D04.sobol")
       \cup If((o.kind \in {"sobol", "mfsobol"} /\ one /\ o.skip >= 0) =>
                 \A f \in F : (o.nested /\ f # n) \/
                     \A k \in 1..Len(D[f]) : (o.skip + k) \in DOMAIN M => M[o.skip + k] = D[f][k], "D06.sequence")
       \cup If((o.kind = "mfsobol" /\ one /\ ~o.nested) =>
                 \A f \in 1..(n - 1) : SubSeq(D[f + 1], 1, Len(D[f])) = D[f], "D06.prefixes")
       \cup If(\A i \in 1..Len(s.seen) : s.seen[i].key = Key(o, e) => s.seen[i].design = D, "D03.reproducible")
       \cup If((o.kind \in {"lhs", "random", "mflhs"} /\ ~Degenerate(o.spaces[1]) /\ e.counts[n] > 0) =>
                 \A i \in 1..Len(s.seen) : (SameSource(s.seen[i].key, Key(o, e)) /\ s.seen[i].key # Key(o, e))
                                           => s.seen[i].design # D, "D03.seed_ignored")

BadRequest(s, e) ==
    LET o == s.objs[e.obj] IN
    If(e.space0 = e.space1, "D03.space_modified")
    \cup If(e.counts = e.counts1, "D03.counts_modified")
    \cup (IF Multi(o) /\ Decreasing(e.counts)
          THEN If(e.exc = "AssertionError", "D02.decreasing_counts_accepted")
          ELSE IF e.exc # "none" THEN {"D01.crash", "D02.crash", "D03.crash", "D04.crash", "D06.crash"}
          ELSE BadDesign(s, o, e))

EffRequest(s, e) ==
    LET o == s.objs[e.obj]
        ok == e.exc = "none" /\ Len(e.design) = Len(e.counts)
        K == SobolKey(o, e)
        M == KnownRows(s, K)
        one == \A f \in 2..Len(o.spaces) : o.spaces[f] = o.spaces[1]
        D == e.design[Len(e.counts)]
        learn == o.kind \in {"sobol", "mfsobol"} /\ one /\ o.skip >= 0
    IN IF ~ok THEN s ELSE
       [s EXCEPT !.objs[e.obj].last = e.design, !.objs[e.obj].has = TRUE,
                 !.seen = Append(@, [key |-> Key(o, e), design |-> e.design]),
                 !.rows = IF ~learn THEN @ ELSE
                          LET m == M @@ [i \in (o.skip + 1)..(o.skip + Len(D)) |-> D[i - o.skip]]
                          IN SelectSeq(@, LAMBDA r : r.key # K) \o << [key |-> K, map |-> m] >>]

Content(fs, name) == LET r == SelectSeq(fs, LAMBDA f : f.name = name) IN IF Len(r) = 1 THEN r[1].design ELSE <<>>
AfterSave(s, e) == SelectSeq(s.files, LAMBDA f : f.name # e.name) \o << [name |-> e.name, design |-> s.objs[e.obj].last] >>
BadSave(s, e) ==
    IF ~s.objs[e.obj].has THEN {}
    ELSE LET want == AfterSave(s, e) IN
         If(e.exc = "none", "D05.crash")
    \cup If(Content(e.files, e.name) = s.objs[e.obj].last, "D05.content")
    \cup If(Len(e.files) = Len(want) /\ \A k \in 1..Len(want) : Content(e.files, want[k].name) = want[k].design, "D05.other_files")
    \cup If(e.design0 = e.design1, "D05.design_changed")
EffSave(s, e) == IF s.objs[e.obj].has THEN [s EXCEPT !.files = AfterSave(s, e)] ELSE s

BadMake(s, e) == If(e.exc = "none", "*.construction")
EffMake(s, e) == [s EXCEPT !.objs = Append(@, [kind |-> e.kind, spaces |-> e.spaces, nested |-> e.nested,
                                              skip |-> e.skip, has |-> FALSE, last |-> <<>>])]
Bad(s, e) == CASE e.op = "crash" -> {"*.crash"}
               [] e.op = "make" -> BadMake(s, e)
               [] e.op = "request" -> BadRequest(s, e)
               [] e.op = "save" -> BadSave(s, e)
Eff(s, e) == CASE e.op = "make" -> EffMake(s, e)
               [] e.op = "request" -> EffRequest(s, e)
               [] e.op = "save" -> EffSave(s, e)
               [] OTHER -> s
====
