---- MODULE AcquisitionMC ----
(***************************************************************************)
(* Design model of acquisition functions: surrogates with tabled predictions *)
(* (trained, and trained again on other data), every acquisition function,   *)
(* evaluations and searches; what a correct implementation answers follows   *)
(* from the definitions.  Lemmas about the definitions are assumptions       *)
(* checked by TLC.                                                           *)
(***************************************************************************)
EXTENDS Acquisition
CONSTANTS MaxOps, MaxSurs, MaxAcqs, Opts, Ratios
VARIABLES st, ops
vars == <<st, ops>>

S1 == << <<"0", "2">> >>
Pts == << <<"0.25">>, <<"1">>, <<"1.75">> >>
Xh == << <<"0.25">>, <<"1.5">> >>
Xl == << <<"0.5">>, <<"1.75">> >>
Yh == << <<"1", "-0.5">>, <<"0.25", "2">> >>
(* predictions by data set and number of the point (samples count as points)  *)
Table == << [m |-> <<"0.2", "-1", "0.5", "1", "-0.5">>, s |-> <<"0.5", "0", "1e-10", "2", "0.1">>,
             lm |-> <<"0.2", "0", "0.4", "1", "-0.4">>, ls |-> <<"0.3", "0.2", "0", "0.1", "0.4">>],
            [m |-> <<"0.2", "0.3", "-2", "0.1", "2">>, s |-> <<"0", "0.5", "0.25", "0", "1">>,
             lm |-> <<"0.2", "1", "-2", "0", "2">>, ls |-> <<"0", "0.7", "0.25", "1", "0">>] >>
Index(x) == CASE x = Pts[1] -> 1 [] x = Pts[2] -> 2 [] x = Pts[3] -> 3 [] x = Xh[2] -> 4 [] OTHER -> 5
Low(o) == o.kind # "gp"
Pred(o, X) == LET t == Table[o.data]  at(v) == [k \in 1..Len(X) |-> v[Index(X[k])]] IN
    [m |-> at(t.m), s |-> at(t.s), lm |-> IF Low(o) THEN at(t.lm) ELSE <<>>, ls |-> IF Low(o) THEN at(t.ls) ELSE <<>>]
Fit(i, kind, d) ==
    [op |-> "fit", sur |-> i, kind |-> kind, S |-> S1, Xh |-> Xh, yh |-> Yh[d], Xl |-> IF kind = "gp" THEN <<>> ELSE Xl, th |-> <<"0.5">>,
     lth |-> IF kind = "gp" THEN <<>> ELSE <<"0.25">>, noise |-> "0", lowh |-> IF kind = "gp" THEN <<>> ELSE << "0.3", Yh[d][2] >>, exact |-> TRUE, sound |-> TRUE,
     exc |-> "none", data |-> d]
Sur(i) == [st.surs[i] EXCEPT !.exact = TRUE] @@ [data |-> IF st.surs[i].yh = Yh[1] THEN 1 ELSE 2]
Make(name, opt) == [op |-> "acq", name |-> name, kappa |-> <<"1", "2">>, opt |-> opt, exc |-> "none"]
None == [m |-> <<>>, s |-> <<>>, lm |-> <<>>, ls |-> <<>>]
All(o, a) == IF a.name = "AEI" THEN Pred(o, Xh \o Xl) ELSE None
Smallest(T) == CHOOSE f \in T : \A g \in T : DLe(f, g)
Given(o, a, cr, f) == [A |-> All(o, a), cr |-> cr, fmin |-> f]
Yd(o, a, e) == IF a.name \in {"VFLCB", "LCB"} THEN "0" ELSE Smallest(Targets(o, a, e))
Ask(i, k, cons, X, fid, cr, f) ==
    LET o == Sur(i)  a == st.acqs[k]  P == Pred(o, X)  C == [j \in 1..Len(cons) |-> Pred(Sur(cons[j]), X)]
        e == [op |-> "eval", acq |-> k, sur |-> i, cons |-> cons, X |-> X, fid |-> fid, cr |-> cr, fmin |-> f, P |-> P, C |-> C, A |-> All(o, a),
              in0 |-> "i", in1 |-> "i", sur0 |-> "s", sur1 |-> "s"]
        bad == ~Supported(o, a) \/ (Multi(a) /\ fid \notin {0, 1})
    IN e @@ [exc |-> IF bad THEN "ValueError" ELSE "none",
             out |-> IF bad THEN <<>> ELSE [j \in 1..Len(X) |-> Value(o, a, P, C, X[j], j, fid, cr, Yd(o, a, e))]]
(* an exhaustive search of the points                                         *)
Probe(o, a, cons, x, fid, cr, f) ==
    LET P == Pred(o, <<x>>)  C == [j \in 1..Len(cons) |-> Pred(Sur(cons[j]), <<x>>)]
    IN [x |-> x, P |-> P, C |-> C, val |-> Value(o, a, P, C, x, 1, fid, cr, f)]
Search(o, a, cons, fid, cr, f) ==
    LET p == [j \in 1..Len(Pts) |-> Probe(o, a, cons, Pts[j], fid, cr, f)]
        b == CHOOSE j \in 1..Len(Pts) : \A i \in 1..Len(Pts) : DLt(p[j].val, p[i].val) \/ (DEq(p[j].val, p[i].val) /\ j <= i)
    IN [by |-> a.opt, num |-> 1, lo |-> <<"0">>, hi |-> <<"2">>, x |-> Pts[b], val |-> p[b].val, probes |-> p]
Scan(o) == LET p == [j \in 1..Len(Pts) |-> [x |-> Pts[j], P |-> Pred(o, <<Pts[j]>>), C |-> <<>>, val |-> Pred(o, <<Pts[j]>>).m[1]]]
               b == CHOOSE j \in 1..Len(Pts) : \A i \in 1..Len(Pts) : DLe(p[j].val, p[i].val)
           IN [by |-> "none", num |-> 1, lo |-> <<"0">>, hi |-> <<"2">>, x |-> Pts[b], val |-> p[b].val, probes |-> p]
Query(i, k, cons, cr, f) ==
    LET o == Sur(i)  a == st.acqs[k]
        e == [op |-> "query", acq |-> k, sur |-> i, cons |-> cons, cr |-> cr, fmin |-> f, A |-> All(o, a), sur0 |-> "s", sur1 |-> "s"]
        yd == IF a.name = "EPI" THEN Scan(o).val ELSE Yd(o, a, e)
        bad == ~Supported(o, a)
        q == IF bad THEN <<>> ELSE [j \in 1..Cardinality(Fids(a)) |-> Search(o, a, cons, j - 1, cr, yd)]
        r == IF bad \/ ~Multi(a) THEN 0 ELSE IF DLe(q[1].val, q[2].val) THEN 0 ELSE 1
        x == IF bad THEN <<>> ELSE q[r + 1].x
        at == [j \in 1..Len(Pts) |-> Probe(o, a, cons, Pts[j], 0, cr, "0")]
    IN e @@ [exc |-> IF bad THEN "ValueError" ELSE "none", searches |-> q, scans |-> IF a.name = "EPI" THEN <<Scan(o)>> ELSE <<>>, x |-> x, rfid |-> r,
             dense |-> IF bad \/ (a.opt # "none" /\ a.name # "EPI") THEN <<>> ELSE [j \in 1..Len(Pts) |-> [x |-> at[j].x, P |-> at[j].P, C |-> at[j].C]],
             rP |-> IF bad THEN None ELSE Pred(o, <<x>>), rC |-> IF bad THEN <<>> ELSE [j \in 1..Len(cons) |-> Pred(Sur(cons[j]), <<x>>)]]

GPs == {i \in 1..Len(st.surs) : st.surs[i].kind = "gp"}
Cons(a) == IF a.name # "CEI" THEN {<<>>} ELSE {<<i>> : i \in GPs} \cup {<<i, j>> : i \in GPs, j \in GPs}
Pairs == {p \in (1..Len(st.surs)) \X (1..Len(st.acqs)) : Multi(st.acqs[p[2]]) <=> st.surs[p[1]].kind # "gp"}
Asks == UNION { { Ask(p[1], p[2], c, X, fid, cr, "0.1") : c \in Cons(st.acqs[p[2]]), X \in {<<Pts[1], Pts[2]>>, <<Pts[3], Pts[1], Pts[1]>>},
                  fid \in (IF Multi(st.acqs[p[2]]) THEN {0, 1, 7} ELSE {0}), cr \in (IF Multi(st.acqs[p[2]]) THEN Ratios ELSE {"1"}) } : p \in Pairs }
Queries == UNION { { Query(p[1], p[2], c, cr, "0.1") : c \in Cons(st.acqs[p[2]]), cr \in (IF Multi(st.acqs[p[2]]) THEN Ratios ELSE {"1"}) } : p \in Pairs }
Fits == { Fit(Len(st.surs) + 1, k, d) : k \in (IF Len(st.surs) < MaxSurs THEN {"gp", "hk", "ck"} ELSE {}), d \in 1..2 }
        \cup { Fit(i, st.surs[i].kind, d) : i \in 1..Len(st.surs), d \in 1..2 }
Makes == { Make(a, o) : a \in (IF Len(st.acqs) < MaxAcqs THEN {"LCB", "EI", "PI", "CEI", "AEI", "VFEI", "VFLCB", "EPI"} ELSE {}), o \in Opts }
Allowed == IF ops = MaxOps THEN {} ELSE Fits \cup Makes \cup Asks \cup Queries
Init == st = NoState /\ ops = 0
Next == \E e \in Allowed : st' = Eff(st, e) /\ ops' = ops + 1
Spec == Init /\ [][Next]_vars
View == << [i \in 1..Len(st.surs) |-> <<st.surs[i].kind, st.surs[i].yh, st.surs[i].run>>], st.acqs,
           { <<st.seen[i].key, st.seen[i].x>> : i \in 1..Len(st.seen) }, ops >>

---------------------------------------------------------------------------
Conform == \A e \in Allowed : Bad(st, e) = {}
Off(v) == DAdd(v, DAdd("0.01", DMul("0.01", DAbs(v))))
Mutants(e) ==
    CASE e.op \in {"fit", "acq"} -> { [e EXCEPT !.exc = "TypeError"] }
      [] e.op = "eval" ->
            { [e EXCEPT !.in1 = "j"], [e EXCEPT !.sur1 = "t"], [e EXCEPT !.exc = IF @ = "none" THEN "ValueError" ELSE "none"], [e EXCEPT !.exc = "TypeError"] }
            \cup (IF e.exc # "none" THEN {} ELSE
                  { [e EXCEPT !.out[Len(e.X)] = Off(@)], [e EXCEPT !.out[1] = DNeg(Off(@))], [e EXCEPT !.out[1] = "nan"], [e EXCEPT !.out = Tail(@)] })
      [] e.op = "query" ->
            LET a == st.acqs[e.acq] IN
            { [e EXCEPT !.sur1 = "t"], [e EXCEPT !.exc = "TypeError"] }
            \cup (IF e.exc # "none" THEN {} ELSE
                  { [e EXCEPT !.x = <<"2.5">>], [e EXCEPT !.x = <<"0.25", "1">>], [e EXCEPT !.searches[1].lo[1] = "-1"], [e EXCEPT !.searches[1].num = 2],
                    [e EXCEPT !.searches[1].probes[2].val = Off(@)], [e EXCEPT !.x = <<"0.75">>], [e EXCEPT !.searches[1].by = "other"] }
                  \cup (IF a.opt # "none" THEN { [e EXCEPT !.searches = Tail(@)] } ELSE {})
                  \cup (IF Multi(a) THEN { [e EXCEPT !.rfid = 7], [e EXCEPT !.rfid = 1 - @] } ELSE {})
                  \cup (IF a.name = "EPI" THEN { [e EXCEPT !.scans[1].val = Off(@)] } ELSE {}))
Rejects == \A e \in Allowed : \A m \in Mutants(e) : Bad(st, m) # {}
(* values depend on surrogates, acquisition, fidelity, ratio, target and point *)
InvFunction == \A i, k \in 1..Len(st.seen) :
    (st.seen[i].key = st.seen[k].key /\ st.seen[i].x = st.seen[k].x) => DEq(st.seen[i].v, st.seen[k].v)
(* a yardstick kept from an earlier training is noticed                        *)
Stale == \A i \in 1..Len(st.surs), k \in 1..Len(st.acqs) :
    (st.acqs[k].name \in {"EI", "CEI"} /\ st.surs[i].kind = "gp") =>
        LET o == Sur(i)  c == IF st.acqs[k].name = "CEI" THEN <<i>> ELSE <<>>  e == Ask(i, k, c, <<Pts[1], Pts[2], Pts[3]>>, 0, "1", "0")
            other == DMinSeq(Yh[3 - o.data])
            w == [j \in 1..3 |-> Value(o, st.acqs[k], e.P, e.C, e.X[j], j, 0, "1", other)]
        IN Bad(st, [e EXCEPT !.out = w]) # {}

---------------------------------------------------------------------------
(* lemmas: f best, m mean, s deviation                                         *)
Ms == {"-3", "-0.5", "0", "0.25", "2", "10"}
Ss == {"0", "1e-12", "0.01", "0.5", "3"}
Leq(a, b) == DLe(a, DAdd(b, "1e-20"))
E0(m, s) == EIof("0", m, s, "1e-9")
P0(m, s) == PIof("0", m, s, "1e-9")
(* improvement is expected to be positive, at least what the mean promises, less for worse means, more for larger deviations *)
(* (the regularisation of vanishing deviations costs at most its own size)                                                  *)
ASSUME \A m \in Ms, s \in Ss : /\ DLe(DNeg("1e-9"), E0(m, s))
                               /\ DLe(DSub(DNeg(m), "1e-9"), E0(m, s))
                               /\ \A n \in Ms : DLt(m, n) => DLe(E0(n, s), DAdd(E0(m, s), "1e-8"))
                               /\ \A t \in Ss : DLt(s, t) => DLe(E0(m, s), DAdd(E0(m, t), "1e-8"))
ASSUME \A m \in Ms, s \in Ss : /\ DLe(0, P0(m, s)) /\ DLe(P0(m, s), 1)
                               /\ \A n \in Ms : DLt(m, n) => Leq(P0(n, s), P0(m, s))
                               /\ (DLt(m, 0) <=> DLt("0.5", P0(m, s)))
(* feasibility is a probability; more constraints never help; constrained improvement is at most the improvement *)
Con(m, s) == [m |-> <<m>>, s |-> <<s>>]
ASSUME \A m, n \in Ms, s \in Ss : LET p == Feasible(<<Con(m, s)>>, 1)  q == Feasible(<<Con(m, s), Con(n, s)>>, 1) IN
         DLe(0, q) /\ Leq(q, p) /\ Leq(p, 1) /\ DEq(Feasible(<<>>, 1), 1) /\ (DLt(m, 0) <=> DLt("0.5", p))
(* a low-fidelity sample is worth more the smaller the difference of the fidelities *)
Pr(m, s, lm, ls) == [m |-> <<m>>, s |-> <<s>>, lm |-> <<lm>>, ls |-> <<ls>>]
ASSUME \A m, n, k \in Ms : \A s, t \in Ss \ {"0"} : DLt(DAbs(DSub(m, n)), DAbs(DSub(m, k))) =>
         DLt(Corr01(Pr(m, s, k, t), 1, 1), Corr01(Pr(m, s, n, t), 1, 1)) /\ Corr01(Pr(m, s, n, t), 1, 0) = "1"
====
