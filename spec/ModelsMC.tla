---- MODULE ModelsMC ----
(***************************************************************************)
(* Design model of surrogate models: a few settings of every kind are made,  *)
(* trained on two small data sets, asked, overwritten, trained again; what a *)
(* correct implementation reports is computed from the equations.  Lemmas    *)
(* about the equations themselves are assumptions checked by TLC.            *)
(***************************************************************************)
EXTENDS Models
CONSTANTS MaxObjs, MaxOps, Wide
VARIABLES st, ops
vars == <<st, ops>>

Box01 == [llo |-> "-2", lhi |-> "3", tlo |-> "-1", thi |-> "2", rlo |-> "0.5", rhi |-> "2"]
Setting(k, deg, prior, fit, restart, opt) ==
    Box01 @@ [kind |-> k, S |-> << <<"0", "2">> >>, deg |-> deg, prior |-> prior, rhofit |-> fit, restart |-> restart, opt |-> opt]
Settings == { Setting("gp", 0, "0", "none", 1, "none"), Setting("gp", 1, "none", "none", 0, "stub"), Setting("hk", 0, "0", "none", 1, "none"),
              Setting("hk", 0, "none", "none", 0, "stub"), Setting("sk", 0, "0.1", "error", 0, "stub"), Setting("sk", 0, "0", "none", 0, "none"),
              Setting("ck", 0, "none", "none", 0, "stub"), Setting("ck", 0, "0", "none", 0, "none") }
Xs == << << <<"0.1">>, <<"0.9">>, <<"1.8">>, <<"1.3">> >>, << <<"0.5">>, <<"1.5">>, <<"1.9">> >> >>
Hi == << <<"1.5", "-0.5", "2.25", "0.5">>, <<"3", "3.5", "1">> >>
Xl == << <<"0.2">>, <<"0.8">>, <<"1.7">>, <<"1.2">> >>
Lo == <<"1", "0.25", "1.75", "0.5">>
(* candidates: by stage and number of the search                              *)
Theta(j) == IF j % 2 = 0 THEN "0.75" ELSE "1.25"
Cand(o, g, j) == CASE g = "rho" -> <<"1.2">>
                   [] g = "hf" /\ o.set.kind = "ck" -> <<"0.8">> \o (IF Learned(o) THEN <<"0.05">> ELSE <<>>) \o <<Theta(j)>>
                   [] OTHER -> <<Theta(j)>> \o (IF Learned(o) THEN <<"0.05">> ELSE <<>>)
Search(o, g, j) == LET b == Box(o, g) IN
    [num |-> Len(b), lo |-> [k \in 1..Len(b) |-> b[k][1]], hi |-> [k \in 1..Len(b) |-> b[k][2]], x |-> Cand(o, g, j), val |-> ToString(10 - j), probes |-> <<>>]
Rep(o, g, x) == [k \in 1..Dims(o) |-> DTenTo(ThetaOf(o, g, x)[k])]
Train(k, d) ==
    LET o == st.objs[k]  w == Wanted(o)
        q == [j \in 1..Len(w) |-> Search(o, w[j], j)]
        lastOf(g) == q[CHOOSE j \in 1..Len(w) : w[j] = g /\ \A i \in 1..Len(w) : w[i] = g => i <= j].x
        e0 == [op |-> "train", obj |-> k, Xh |-> Xs[d], yh |-> Hi[d], Xl |-> IF Multi(o) THEN Xl ELSE <<>>, yl |-> IF Multi(o) THEN Lo ELSE <<>>,
               seed |-> 1, hyp |-> 0, in0 |-> "i", in1 |-> "i", exc |-> "none", searches |-> q, eqs |-> TRUE, fine |-> TRUE,
               theta |-> Rep(o, "hf", lastOf("hf")), ltheta |-> IF Multi(o) THEN Rep(o, "lf", lastOf("lf")) ELSE <<>>]
        rho == IF o.set.kind \in {"sk", "ck"} THEN <<Rho(o, e0)>> ELSE <<>>
        e1 == e0 @@ [rho |-> rho,
               noise |-> IF o.set.kind = "sk" THEN <<RawNoise(o, e0, "hf", SKDisc(LowGP(o, e0), Rho(o, e0), e0.Xh, e0.yh))>>
                         ELSE IF o.set.kind = "ck" THEN << IF Learned(o) THEN "0.05" ELSE "0" >>
                         ELSE <<RawNoise(o, e0, "hf", e0.yh)>>,
               lnoise |-> IF ~Multi(o) THEN <<>> ELSE IF o.set.kind = "ck" THEN << IF Learned(o) THEN "0.05" ELSE "0" >> ELSE <<RawNoise(o, e0, "lf", e0.yl)>>]
        p == Posterior(o, e1)
    IN [e1 EXCEPT !.searches = [j \in 1..Len(w) |-> [q[j] EXCEPT !.probes = << [x |-> q[j].x, val |-> Objective(o, p, e1, w[j], q[j].x)] >>]]]
Queries == {<< <<"0.9">>, <<"1.1">> >>, << <<"1.1">>, <<"2.2">>, <<"1.1">> >>}
Ask(k, w, X, d) ==
    LET o == st.objs[k] IN
    [op |-> "predict", obj |-> k, which |-> w, X |-> X, std |-> d, exc |-> "none", in0 |-> "i", in1 |-> "i", data0 |-> "d", data1 |-> "d",
     mean |-> [i \in 1..Len(X) |-> <<PMean(o, w, X[i])>>], mshape |-> <<Len(X), 1>>,
     sd |-> IF d THEN [i \in 1..Len(X) |-> <<DSqrt(DMax2(0, PVar(o, w, X[i])))>>] ELSE <<>>, sshape |-> IF d THEN <<Len(X), 1>> ELSE <<>>]
Makes == { [op |-> "make", exc |-> "none", set |-> s] : s \in IF Wide \/ Len(st.objs) = 0 THEN Settings ELSE {st.objs[1].set} }
Live == {k \in 1..Len(st.objs) : st.objs[k].trained}
Asks == UNION { { Ask(k, w, X, d) : w \in (IF Multi(st.objs[k]) THEN {"hf", "lf"} ELSE {"hf"}), X \in Queries, d \in BOOLEAN } : k \in Live }
Trains == { Train(k, d) : k \in 1..Len(st.objs), d \in 1..2 }
Allowed == IF ops = MaxOps THEN {} ELSE
           (IF Len(st.objs) < MaxObjs THEN Makes ELSE {}) \cup Trains \cup Asks \cup { [op |-> "overwrite", obj |-> k] : k \in Live }
Init == st = NoState /\ ops = 0
Next == \E e \in Allowed : st' = Eff(st, e) /\ ops' = ops + 1
Spec == Init /\ [][Next]_vars
(* the text of numbers may differ, only the history of operations matters     *)
View == << [k \in 1..Len(st.objs) |-> <<st.objs[k].set, st.objs[k].trained, st.objs[k].data>>],
           { <<st.seen[i].obj, st.seen[i].run, st.seen[i].which, st.seen[i].x, st.seen[i].sd = "none", st.seen[i].key[2]>> : i \in 1..Len(st.seen) },
           Len(st.fits), ops >>
---------------------------------------------------------------------------
Conform == \A e \in Allowed : Bad(st, e) = {}
Off(v) == DAdd(v, DAdd("0.01", DMul("0.01", DAbs(v))))
Mutants(e) ==
    CASE e.op = "make" -> { [e EXCEPT !.exc = "ValueError"] }
      [] e.op = "overwrite" -> {}
      [] e.op = "train" ->
            LET o == st.objs[e.obj]  n == Len(e.searches) IN
            { [e EXCEPT !.in1 = "j"], [e EXCEPT !.exc = "LinAlgError"], [e EXCEPT !.theta[1] = Off(@)], [e EXCEPT !.searches = Tail(@)],
              [e EXCEPT !.searches = @ \o <<@[n]>>], [e EXCEPT !.searches[n].lo[1] = DSub(@, 1)], [e EXCEPT !.searches[n].num = @ + 1],
              [e EXCEPT !.searches[n].probes[1].val = Off(@)], [e EXCEPT !.searches[1].probes[1].val = Off(@)] }
            \cup (IF Multi(o) THEN { [e EXCEPT !.ltheta[1] = Off(@)] } ELSE {})
            \cup (IF o.set.kind \in {"sk", "ck"} THEN { [e EXCEPT !.rho[1] = Off(@)] } ELSE {})
            \cup (IF o.set.kind \in {"gp", "hk"} THEN { [e EXCEPT !.noise[1] = Off(@)] } ELSE {})
            \cup (IF o.set.kind \in {"hk", "sk"} THEN { [e EXCEPT !.lnoise[1] = Off(@)] } ELSE {})
            \* the worse of two candidates adopted; a candidate outside its box
            \cup (IF o.set.opt = "none" /\ o.set.restart = 1
                  THEN { [e EXCEPT !.theta = Rep(o, "hf", e.searches[n - 1].x)], [e EXCEPT !.searches[n].x = [@ EXCEPT ![1] = "7"], !.theta[1] = DTenTo("7"), !.eqs = FALSE] }
                  ELSE {})
      [] e.op = "predict" ->
            { [e EXCEPT !.mean[Len(e.X)][1] = Off(@)], [e EXCEPT !.mean[1][1] = "nan"], [e EXCEPT !.mshape = <<Len(e.X)>>], [e EXCEPT !.in1 = "j"],
              [e EXCEPT !.data1 = "x"], [e EXCEPT !.exc = "ValueError"], [e EXCEPT !.mean = Tail(@)] }
            \cup (IF e.std THEN { [e EXCEPT !.sd[Len(e.X)][1] = DAdd(Off(@), "0.01")], [e EXCEPT !.sd[1][1] = "-0.5"], [e EXCEPT !.sd[1][1] = "nan"],
                                  [e EXCEPT !.sshape = <<1, Len(e.X)>>], [e EXCEPT !.sd = <<>>] } ELSE {})
Rejects == \A e \in Allowed : \A m \in Mutants(e) : Bad(st, m) # {}
(* predictions and fits are functions of settings, data and point only        *)
InvFunction == \A i, k \in 1..Len(st.seen) :
    (st.seen[i].key = st.seen[k].key /\ st.seen[i].which = st.seen[k].which /\ st.seen[i].x = st.seen[k].x) => DClose(st.seen[i].mean, st.seen[k].mean, "1e-20", "1e-20")
InvFits == \A i, k \in 1..Len(st.fits) : st.fits[i].key = st.fits[k].key => CloseFit(st.fits[i].fit, st.fits[k].fit)
(* without the equations (flag off) histories alone still reveal a changed    *)
(* prediction                                                                 *)
Blind(o) == [o EXCEPT !.eqs = FALSE]
InvHistory == \A k \in 1..Len(st.seen) :
    LET q == st.seen[k]  o == st.objs[q.obj] IN
    (o.trained /\ o.key = q.key) =>
        LET e == Ask(q.obj, q.which, <<q.x>>, FALSE)
            s == [st EXCEPT !.objs[q.obj] = Blind(o)]
        IN Bad(s, [e EXCEPT !.mean[1][1] = DAdd(@, "0.05")]) # {} /\ Bad(s, e) = {}

---------------------------------------------------------------------------
(* lemmas about the equations                                                 *)
S1 == << <<"0", "2">> >>
Th == <<"0.75">>
G(deg, y, noise) == GP(S1, deg, Th, Xs[1], y, noise)
Near(a, b) == DClose(a, b, "1e-6", "1e-6")
Spots == {<<"0.1">>, <<"0.9">>, <<"1.05">>, <<"1.8">>, <<"-0.5">>, <<"2.3">>}
(* interpolation without noise, certainty at data, and nowhere negative       *)
ASSUME \A deg \in 0..1 : LET g == G(deg, Hi[1], "0") IN
         /\ \A i \in 1..4 : Near(GPMean(g, Xs[1][i]), Hi[1][i]) /\ DLe(GPVar(g, Xs[1][i]), "1e-6")
         /\ \A x \in Spots : DLe(0, UKVar(g.uk, Unit(S1, x), Basis(deg, Unit(S1, x))) ) \/ \E i \in 1..4 : x = Xs[1][i]
(* the noise is a floor of the variance, means shrink towards the trend       *)
ASSUME \A x \in Spots : DLe(DSq("0.3"), GPVar(G(0, Hi[1], "0.3"), x))
(* constant responses are reproduced everywhere, with certainty               *)
ASSUME LET g == G(0, <<"3", "3", "3", "3">>, "0") IN \A x \in Spots : Near(GPMean(g, x), "3") /\ DLe(GPVar(g, x), "1e-9")
(* a linear trend reproduces linear responses, also outside                   *)
ASSUME LET g == G(1, [i \in 1..4 |-> DAdd(1, DMul(2, Xs[1][i][1]))], "0") IN \A x \in Spots : Near(GPMean(g, x), DAdd(1, DMul(2, x[1])))
(* shifting and scaling the responses shifts and scales mean and deviation    *)
ASSUME LET g == G(0, Hi[1], "0")  h == G(0, [i \in 1..4 |-> DAdd(7, DMul(3, Hi[1][i]))], "0") IN
         \A x \in Spots : Near(GPMean(h, x), DAdd(7, DMul(3, GPMean(g, x)))) /\ DClose(GPVar(h, x), DMul(9, GPVar(g, x)), "1e-9", "1e-9")
(* the equations do not depend on the order of the data                       *)
Swap(q) == <<q[2], q[1]>> \o SubSeq(q, 3, Len(q))
ASSUME LET g == G(0, Hi[1], "0.1")  h == GP(S1, 0, Th, Swap(Xs[1]), Swap(Hi[1]), "0.1") IN \A x \in Spots : Near(GPMean(h, x), GPMean(g, x))
(* multi-fidelity means interpolate the high fidelity data without noise;     *)
(* equal fidelities: scaled Kriging with factor one is the low model, nothing *)
(* is left to the discrepancy                                                 *)
Low == GP(S1, 0, Th, Xl, Lo, "0")
ASSUME LET h == HK(S1, Low, Th, Xs[1], Hi[1], "0")  k == SK(S1, Low, "1.2", Th, Xs[1], Hi[1], "0")
           c == CK(S1, Th, "0", "0.8", Th, "0", Xl, Lo, Xs[1], Hi[1]) IN
         \A i \in 1..4 : /\ Near(HKMean(h, Xs[1][i]), Hi[1][i]) /\ DLe(HKVar(h, Xs[1][i]), "1e-6")
                         /\ Near(SKMean(k, Xs[1][i]), Hi[1][i])
                         /\ Near(CKMean(c, Xs[1][i]), Hi[1][i]) /\ DLe(CKVar(c, Xs[1][i]), "1e-6")
                         /\ Near(CKLowMean(c, Xl[i]), Lo[i])
ASSUME LET y == [i \in 1..4 |-> GPMean(Low, Xs[1][i])]  k == SK(S1, Low, "1", Th, Xs[1], y, "0")  h == HK(S1, Low, Th, Xs[1], y, "0") IN
         \A x \in Spots : Near(SKMean(k, x), GPMean(Low, x)) /\ DClose(SKVar(k, x), GPVar(Low, x), "1e-6", "1e-6") /\ Near(HKMean(h, x), GPMean(Low, x))
(* the correlation is symmetric, one at coincidence, below one elsewhere;      *)
(* its matrices are positive definite                                         *)
ASSUME \A x, y \in Spots : Corr(Th, x, y) = Corr(Th, y, x) /\ (x # y => DLt(Corr(Th, x, y), 1)) /\ (x = y => DEq(Corr(Th, x, y), 1))
ASSUME \A m \in 1..4 : DLt(0, DDet(Gram(Th, SubSeq(Xs[1], 1, m), "0")))
(* trend bases: number of columns                                             *)
ASSUME \A d \in 1..5 : LET x == [k \in 1..d |-> ToString(k)] IN
         Len(Basis(0, x)) = 1 /\ Len(Basis(1, x)) = d + 1 /\ Len(Basis(2, x)) = ((d + 1) * (d + 2)) \div 2
ASSUME Basis(2, <<"2", "3">>) = <<"1", "2", "3", "4", "6", "9">>
(* the concentrated likelihood is smallest where its derivative vanishes:      *)
(* scaling the responses by c changes it by n ln c, for all length scales      *)
ASSUME LET F == [i \in 1..4 |-> <<"1">>]  U == UnitAll(S1, Xs[1])
           f(th, c) == NLL(<<th>>, U, F, [i \in 1..4 |-> DMul(c, Hi[1][i])], "0", TRUE)
       IN \A th \in {"0", "0.5", "1.5"} : DClose(DSub(f(th, "3"), f(th, "1")), DMul(4, DLn(3)), "1e-9", "1e-9")
====
