---- MODULE Models ----
(***************************************************************************)
(* Surrogate models as objects: made, trained, asked, trained again, with   *)
(* the caller's arrays overwritten at any time; trend bases and kernels.    *)
(*                                                                          *)
(*  make     settings: kind, space S, trend degree, noise prior, bounds,    *)
(*           restarts, who searches the hyper-parameters                    *)
(*  train    data of both fidelities (high only for a GP), the searches     *)
(*           observed, and what the model then reports                      *)
(*  predict  points, fidelity, with or without standard deviation           *)
(*  overwrite the caller fills the arrays it passed to train with junk      *)
(*  basis, kmake, kset, kcall   trend bases and kernels on their own        *)
(***************************************************************************)
EXTENDS Kriging, FiniteSets, TLC

If(c, name) == IF c THEN {} ELSE {name}
NoState == [objs |-> <<>>, seen |-> <<>>, fits |-> <<>>, kers |-> <<>>]
Multi(o) == o.set.kind # "gp"
Learned(o) == o.set.prior = "none"
Dims(o) == Len(o.set.S)

---------------------------------------------------------------------------
(* searches of the hyper-parameters                                          *)
Stages(o) == CASE o.set.kind = "gp" -> <<"hf">>
               [] o.set.kind = "sk" -> IF o.set.rhofit = "none" THEN <<"lf", "hf">> ELSE <<"lf", "rho", "hf">>
               [] OTHER -> <<"lf", "hf">>
Times(o, g) == IF o.set.opt # "none" THEN 1 ELSE IF g = "rho" THEN 1 ELSE o.set.restart + 1
Thetas(o, g) == [k \in 1..Dims(o) |-> IF g = "lf" THEN <<o.set.llo, o.set.lhi>> ELSE <<o.set.tlo, o.set.thi>>]
NoiseBox(o) == IF Learned(o) THEN << <<"1e-05", "10">> >> ELSE <<>>
Box(o, g) == IF g = "rho" THEN << <<o.set.rlo, o.set.rhi>> >>
             ELSE IF g = "hf" /\ o.set.kind = "ck" THEN << <<o.set.rlo, o.set.rhi>> >> \o NoiseBox(o) \o Thetas(o, g)
             ELSE Thetas(o, g) \o NoiseBox(o)
RECURSIVE Expected(_, _)
Expected(o, gs) == IF gs = <<>> THEN <<>> ELSE [k \in 1..Times(o, gs[1]) |-> gs[1]] \o Expected(o, Tail(gs))
Wanted(o) == Expected(o, Stages(o))
SameBox(q, b) == q.num = Len(b) /\ Len(q.lo) = Len(b) /\ Len(q.hi) = Len(b) /\ \A k \in 1..Len(b) : DEq(q.lo[k], b[k][1]) /\ DEq(q.hi[k], b[k][2])
InBox(x, b) == Len(x) = Len(b) /\ \A k \in 1..Len(b) : DLe(DSub(b[k][1], "1e-9"), x[k]) /\ DLe(x[k], DAdd(b[k][2], "1e-9"))

(* parts of a hyper-parameter vector of stage g                              *)
ThetaOf(o, g, x) == IF g = "hf" /\ o.set.kind = "ck" THEN SubSeq(x, Len(x) - Dims(o) + 1, Len(x)) ELSE SubSeq(x, 1, Dims(o))
NoiseOf(o, g, x) == IF g = "hf" /\ o.set.kind = "ck" THEN x[2] ELSE x[Dims(o) + 1]
RECURSIVE OfStage(_, _, _, _)
OfStage(w, qs, g, k) == IF k > Len(qs) THEN <<>> ELSE (IF w[k] = g THEN <<qs[k]>> ELSE <<>>) \o OfStage(w, qs, g, k + 1)
Cands(o, e, g) == OfStage(Wanted(o), e.searches, g, 1)
Best(qs) == LET m == DMinSeq([k \in 1..Len(qs) |-> qs[k].val]) IN {k \in 1..Len(qs) : DLe(qs[k].val, m)}
Raised(th, rep) == Len(rep) = Len(th) /\ \A k \in 1..Len(th) : DClose(rep[k], DTenTo(th[k]), "1e-9", "1e-12")
(* the adopted vector of a stage: the first of the best (ties: any)          *)
Reported(o, e, g) == IF g = "lf" THEN e.ltheta ELSE e.theta
Adopted(o, e, g) == LET qs == Cands(o, e, g) IN
    IF o.set.opt # "none" THEN qs[1].x
    ELSE IF g # "rho" /\ \E k \in Best(qs) : Raised(ThetaOf(o, g, qs[k].x), Reported(o, e, g))
         THEN qs[CHOOSE k \in Best(qs) : Raised(ThetaOf(o, g, qs[k].x), Reported(o, e, g))].x
         ELSE qs[CHOOSE k \in Best(qs) : TRUE].x

GoodSearches(o, e) == LET w == Wanted(o) IN
    Len(e.searches) = Len(w) /\ \A k \in 1..Len(w) : Len(e.searches[k].x) = Len(Box(o, w[k]))
Rho(o, e) == CASE o.set.kind = "sk" /\ o.set.rhofit = "none" -> "1"
               [] o.set.kind = "sk" -> Adopted(o, e, "rho")[1]
               [] o.set.kind = "ck" -> Adopted(o, e, "hf")[1]
               [] OTHER -> "1"

---------------------------------------------------------------------------
(* the posterior the equations give for the adopted hyper-parameters         *)
LowData(o, e) == IF Multi(o) THEN <<e.Xl, e.yl>> ELSE <<e.Xh, e.yh>>
RawNoise(o, e, g, y) == IF Learned(o) THEN DMul(NoiseOf(o, g, Adopted(o, e, g)), Scale(y)) ELSE o.set.prior
LowGP(o, e) == GP(o.set.S, 0, ThetaOf(o, "lf", Adopted(o, e, "lf")), e.Xl, e.yl, RawNoise(o, e, "lf", e.yl))
Posterior(o, e) ==
    LET th == ThetaOf(o, "hf", Adopted(o, e, "hf")) IN
    CASE o.set.kind = "gp" -> GP(o.set.S, o.set.deg, th, e.Xh, e.yh, RawNoise(o, e, "hf", e.yh))
      [] o.set.kind = "hk" -> LET low == LowGP(o, e) IN HK(o.set.S, low, th, e.Xh, e.yh, RawNoise(o, e, "hf", e.yh))
      [] o.set.kind = "sk" -> LET low == LowGP(o, e)  r == Rho(o, e)
                                  d == SKDisc(low, r, e.Xh, e.yh)
                              IN SK(o.set.S, low, r, th, e.Xh, e.yh, RawNoise(o, e, "hf", d))
      [] o.set.kind = "ck" -> LET s == Scale(e.yh)
                                  nl == IF Learned(o) THEN NoiseOf(o, "lf", Adopted(o, e, "lf")) ELSE DDiv(o.set.prior, s)
                                  nh == IF Learned(o) THEN NoiseOf(o, "hf", Adopted(o, e, "hf")) ELSE DDiv(o.set.prior, s)
                              IN CK(o.set.S, ThetaOf(o, "lf", Adopted(o, e, "lf")), nl, Rho(o, e), th, nh, e.Xl, e.yl, e.Xh, e.yh)
PMean(o, which, x) == LET p == o.post IN
    CASE o.set.kind = "gp" -> GPMean(p, x)
      [] o.set.kind = "hk" -> IF which = "lf" THEN GPMean(p.low, x) ELSE HKMean(p, x)
      [] o.set.kind = "sk" -> IF which = "lf" THEN GPMean(p.low, x) ELSE SKMean(p, x)
      [] o.set.kind = "ck" -> IF which = "lf" THEN CKLowMean(p, x) ELSE CKMean(p, x)
PVar(o, which, x) == LET p == o.post IN
    CASE o.set.kind = "gp" -> GPVar(p, x)
      [] o.set.kind = "hk" -> IF which = "lf" THEN GPVar(p.low, x) ELSE HKVar(p, x)
      [] o.set.kind = "sk" -> IF which = "lf" THEN GPVar(p.low, x) ELSE SKVar(p, x)
      [] o.set.kind = "ck" -> IF which = "lf" THEN CKLowVar(p, x) ELSE CKVar(p, x)
GPBig(g) == DAdd(DMul(DSq(g.s), g.uk.s2), DSq(g.noise))
(* variance far from all data, the yardstick for errors of variances         *)
Big(o, which) == LET p == o.post IN
    CASE o.set.kind = "gp" -> GPBig(p)
      [] o.set.kind = "hk" -> IF which = "lf" THEN GPBig(p.low) ELSE DAdd(DMul(DSq(p.s), p.uk.s2), DSq(p.noise))
      [] o.set.kind = "sk" -> IF which = "lf" THEN GPBig(p.low) ELSE DAdd(GPBig(p.disc), DMul(DSq(p.rho), GPBig(p.low)))
      [] o.set.kind = "ck" -> DMul(DSq(p.s), DAdd(DSq(p.nh), DAdd(DMul(DMax2(1, DSq(p.rho)), p.low.s2), p.dif.s2)))

---------------------------------------------------------------------------
(* likelihoods at the points the harness' optimizer tried                    *)
Free(o) == o.set.prior # "none" /\ DEq(o.set.prior, 0)
GPNLL(o, g, x, X, F, y, m, s) ==
    NLL(ThetaOf(o, g, x), UnitAll(o.set.S, X), F, Standard(y, m, s),
        IF Learned(o) THEN NoiseOf(o, g, x) ELSE DDiv(o.set.prior, s), Free(o))
Ones(X) == [i \in 1..Len(X) |-> <<"1">>]
Bases(o, X) == LET U == UnitAll(o.set.S, X) IN DFix([i \in 1..Len(X) |-> Basis(o.set.deg, U[i])])
Objective(o, p, e, g, x) ==
    CASE g = "lf" /\ o.set.kind = "ck" -> GPNLL(o, g, x, e.Xl, Ones(e.Xl), e.yl, Mean(e.yh), Scale(e.yh))
      [] g = "lf" -> GPNLL(o, g, x, e.Xl, Ones(e.Xl), e.yl, Mean(e.yl), Scale(e.yl))
      [] g = "rho" -> DSum([i \in 1..Len(e.Xh) |-> DSq(DSub(DMul(x[1], GPMean(p.low, e.Xh[i])), e.yh[i]))])
      [] o.set.kind = "gp" -> GPNLL(o, g, x, e.Xh, Bases(o, e.Xh), e.yh, Mean(e.yh), Scale(e.yh))
      [] o.set.kind = "hk" -> GPNLL(o, g, x, e.Xh, p.uk.F, e.yh, p.m, p.s)
      [] o.set.kind = "sk" -> LET d == SKDisc(p.low, p.rho, e.Xh, e.yh) IN GPNLL(o, g, x, e.Xh, Ones(e.Xh), d, Mean(d), Scale(d))
      [] o.set.kind = "ck" ->
            LET z == Standard(e.yh, p.m, p.s)
                d == DFix([i \in 1..Len(e.Xh) |-> DSub(z[i], DMul(x[1], UKMean(p.low, p.dif.X[i], <<"1">>)))])
            IN NLL(ThetaOf(o, g, x), p.dif.X, Ones(e.Xh), d, IF Learned(o) THEN NoiseOf(o, g, x) ELSE p.nh, Free(o))
BadProbes(o, p, e) == LET w == Wanted(o) IN
    If(\A k \in 1..Len(w) : \A j \in 1..Len(e.searches[k].probes) :
         (w[k] = "rho" /\ o.set.rhofit = "bumpiness")
         \/ LET q == e.searches[k].probes[j]  v == Objective(o, p, e, w[k], q.x)
            IN DFinite(v) => DClose(q.val, v, "1e-5", DMul("1e-4", Len(e.Xh))), "M06.objective")

---------------------------------------------------------------------------
Key(o, e) == <<o.set, e.Xh, e.yh, e.Xl, e.yl, e.seed, e.hyp>>
Fit(e) == <<e.theta, e.ltheta, e.noise, e.lnoise, e.rho>>
CloseVec(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : DClose(a[k], b[k], "1e-7", "1e-12")
(* attributes the implementation does not offer say nothing                  *)
Absent(v) == v = <<"none">>
CloseFit(a, b) == \A k \in 1..5 : Absent(a[k]) \/ Absent(b[k]) \/ CloseVec(a[k], b[k])
CloseAttr(v, b) == Absent(v) \/ CloseVec(v, b)
Crashed == {"M01.crash", "M02.crash", "M03.crash", "M04.crash", "M05.crash", "M06.crash"}
BadTrain(s, e) ==
    LET o == s.objs[e.obj]  w == Wanted(o) IN
    If(e.in0 = e.in1, "M02.training_data_modified")
    \cup (IF e.exc # "none" THEN Crashed
          ELSE If(\A i \in 1..Len(s.fits) : s.fits[i].key = Key(o, e) => CloseFit(s.fits[i].fit, Fit(e)), "M02.fit_depends_on_history")
          \cup (IF ~GoodSearches(o, e) THEN {"M06.searches"}
                ELSE If(\A k \in 1..Len(w) : SameBox(e.searches[k], Box(o, w[k])), "M06.box")
                \cup If(\A k \in 1..Len(w) : o.set.opt # "none" \/ InBox(e.searches[k].x, Box(o, w[k])), "M06.outside")
                \cup If(Absent(e.theta) \/ Raised(ThetaOf(o, "hf", Adopted(o, e, "hf")), e.theta), "M06.not_adopted")
                \cup If(Multi(o) /\ ~Absent(e.ltheta) => Raised(ThetaOf(o, "lf", Adopted(o, e, "lf")), e.ltheta), "M06.not_adopted")
                \cup If(Multi(o) /\ o.set.kind # "hk" => CloseAttr(e.rho, <<Rho(o, e)>>), "M06.scale_factor")
                \cup If(o.set.kind \in {"gp", "hk"} => CloseAttr(e.noise, <<RawNoise(o, e, "hf", e.yh)>>), "M06.noise")
                \cup If((o.set.kind = "ck" /\ Learned(o)) => CloseAttr(e.noise, <<NoiseOf(o, "hf", Adopted(o, e, "hf"))>>), "M06.noise")
                \cup If(o.set.kind \in {"hk", "sk"} => CloseAttr(e.lnoise, <<RawNoise(o, e, "lf", e.yl)>>), "M06.noise")
                \cup (IF e.eqs THEN BadProbes(o, Posterior(o, e), e) ELSE {})))
EffTrain(s, e) ==
    LET o == s.objs[e.obj]
        ok == e.exc = "none"
        good == IF ok THEN GoodSearches(o, e) ELSE FALSE
        eqs == IF good THEN e.eqs ELSE FALSE
    IN [s EXCEPT !.objs[e.obj].trained = ok, !.objs[e.obj].runs = @ + 1, !.objs[e.obj].eqs = eqs, !.objs[e.obj].fine = IF ok THEN e.fine ELSE FALSE,
                 !.objs[e.obj].data = [Xh |-> e.Xh, yh |-> e.yh, Xl |-> e.Xl, yl |-> e.yl],
                 !.objs[e.obj].key = Key(o, e),
                 !.objs[e.obj].post = IF eqs THEN Posterior(o, e) ELSE [none |-> TRUE],
                 !.fits = IF ok THEN Append(@, [key |-> Key(o, e), fit |-> Fit(e)]) ELSE @]

---------------------------------------------------------------------------
Resp(o, which) == IF which = "lf" THEN o.data.yl ELSE o.data.yh
Pts(o, which) == IF which = "lf" THEN o.data.Xl ELSE o.data.Xh
MaxAbs(y) == DMaxSeq([i \in 1..Len(y) |-> DAbs(y[i])])
(* the yardstick for means: spread of all responses                          *)
Spread(o, which) ==
    LET y == Resp(o, which)
        a == DSub(DMaxSeq(y), DMinSeq(y))
        b == IF o.set.kind = "gp" THEN "0" ELSE DSub(DMaxSeq(o.data.yl), DMinSeq(o.data.yl))
    IN DMax2(a, b)
Yard(o, which) == DAdd(Spread(o, which), DMul("1e-5", DMax2(MaxAbs(o.data.yh), IF Multi(o) THEN MaxAbs(o.data.yl) ELSE 0)))
(* variances at rounding level                                               *)
Dust(o, which) == DSq(DMul("1e-9", DAdd(MaxAbs(o.data.yh), IF Multi(o) THEN MaxAbs(o.data.yl) ELSE 0)))
CloseMean(o, which, a, b) ==
    /\ DFinite(a) /\ DFinite(b)
    /\ DLe(DAbs(DSub(a, b)), DAdd(DMul(IF o.eqs THEN "1e-5" ELSE "1e-3", Yard(o, which)), DMul("1e-6", DAbs(b))))
CloseSd(o, which, a, b) ==
    /\ DFinite(a) /\ DFinite(b)
    /\ IF o.eqs THEN DLe(DAbs(DSub(DSq(a), DSq(b))), DAdd(Dust(o, which), DMul("1e-5", DAdd(Big(o, which), DSq(b)))))
                ELSE DLe(DAbs(DSub(a, b)), DAdd(DMul("3e-2", Yard(o, which)), DMul("3e-2", b)))
Column(n, Y, sh) == sh = <<n, 1>> /\ Len(Y) = n /\ \A k \in 1..n : Len(Y[k]) = 1
BadPredict(s, e) ==
    LET o == s.objs[e.obj]  n == Len(e.X)  w == e.which
        prop == IF o.set.kind = "gp" THEN "M04" ELSE "M05"
        name == IF o.set.kind = "gp" THEN "M04.posterior" ELSE "M05.posterior"
        X == Pts(o, w)  y == Resp(o, w)
        exactAt(k) == {i \in 1..Len(X) : X[i] = e.X[k]}
        noiseless == Free(o) /\ o.fine /\ (\A i, j \in 1..Len(X) : i = j \/ X[i] # X[j])
        memory == {i \in 1..Len(s.seen) : s.seen[i].key = o.key /\ s.seen[i].which = w}
        near(i) == IF s.seen[i].obj = e.obj /\ s.seen[i].run = o.runs THEN "M01" ELSE "M02"
        same(i, k) == \/ s.seen[i].x # e.X[k]
                      \/ /\ CloseMean(o, w, e.mean[k][1], s.seen[i].mean)
                         /\ (~e.std \/ s.seen[i].sd = "none" \/ CloseSd(o, w, e.sd[k][1], s.seen[i].sd))
    IN If(e.in0 = e.in1, "M01.points_modified")
    \cup If(e.data0 = e.data1, "M02.training_data_modified")
    \cup (IF e.exc # "none" THEN Crashed
          ELSE IF ~(Column(n, e.mean, e.mshape) /\ (~e.std \/ Column(n, e.sd, e.sshape))) THEN {"M01.shape"}
          ELSE If(\A k \in 1..n : DFinite(e.mean[k][1]) /\ (~e.std \/ (DFinite(e.sd[k][1]) /\ DLe(0, e.sd[k][1]))), "M01.not_finite")
          \cup UNION { IF \A k \in 1..n : same(i, k) THEN {}
                        ELSE IF near(i) = "M02" THEN {"M02.depends_on_history"}
                        ELSE {"M01.prediction_changed"} \cup If(s.seen[i].at = Len(s.fits), "M02.depends_on_other_models") : i \in memory }
          \cup If(\A k \in 1..n : \A j \in 1..n : (j < k /\ e.X[j] = e.X[k]) => CloseMean(o, w, e.mean[k][1], e.mean[j][1]), "M01.not_pointwise")
          \cup If(noiseless => \A k \in 1..n : \A i \in exactAt(k) :
                    DLe(DAbs(DSub(e.mean[k][1], y[i])), DAdd(DMul("2e-3", Spread(o, w)), DMul("1e-8", MaxAbs(y)))), "M03.mean")
          \cup If((noiseless /\ e.std /\ ~(o.set.kind = "sk" /\ w = "hf")) => \A k \in 1..n : exactAt(k) # {} =>
                    DLe(e.sd[k][1], DAdd(DMul("2e-2", Spread(o, w)), DMul("1e-8", MaxAbs(y)))), "M03.deviation")
          \cup (IF ~o.eqs THEN {} ELSE
                If(\A k \in 1..n : CloseMean(o, w, e.mean[k][1], PMean(o, w, e.X[k])), name)
                \cup If(e.std => \A k \in 1..n : LET v == PVar(o, w, e.X[k]) IN
                          DLe(DAbs(DSub(DSq(e.sd[k][1]), v)), DAdd(Dust(o, w), DMul("1e-5", DAdd(Big(o, w), v)))),
                        IF o.set.kind = "gp" THEN "M04.deviation" ELSE "M05.deviation")))
EffPredict(s, e) ==
    LET o == s.objs[e.obj]  n == Len(e.X)
        ok == IF e.exc # "none" THEN FALSE ELSE Column(n, e.mean, e.mshape) /\ (~e.std \/ Column(n, e.sd, e.sshape))
    IN IF ~ok THEN s ELSE
       [s EXCEPT !.seen = @ \o [k \in 1..n |-> [key |-> o.key, which |-> e.which, obj |-> e.obj, run |-> o.runs, at |-> Len(s.fits), x |-> e.X[k],
                                                mean |-> e.mean[k][1], sd |-> IF e.std THEN e.sd[k][1] ELSE "none"]]]

---------------------------------------------------------------------------
(* trend bases                                                               *)
BadBasis(e) ==
    If(e.in0 = e.in1, "M07.input_modified")
    \cup (IF e.exc # "none" THEN {"M07.crash"}
          ELSE LET want == [i \in 1..Len(e.X) |-> Basis(e.deg, e.X[i])] IN
               IF ~(Len(e.out) = Len(want) /\ e.shape = <<Len(want), Len(want[1])>>) THEN {"M07.shape"}
               ELSE If(\A i \in 1..Len(want) : \A c \in 1..Len(want[i]) : DClose(e.out[i][c], want[i][c], "1e-12", "1e-300"), "M07.columns"))
(* kernels; stored theta and bounds                                          *)
KReport(th, lo, hi, r) ==
    If(Raised(th, r.param), "M08.parameters")
    \cup If(r.num = Len(th) /\ Len(r.lo) = Len(th) /\ Len(r.hi) = Len(th)
            /\ \A k \in 1..Len(th) : DEq(r.lo[k], lo) /\ DEq(r.hi[k], hi), "M08.bounds")
BadKMake(s, e) == IF e.exc # "none" THEN {"M08.crash"} ELSE KReport(e.theta, e.lo, e.hi, e.rep)
EffKMake(s, e) == [s EXCEPT !.kers = Append(@, [theta |-> e.theta, lo |-> e.lo, hi |-> e.hi])]
BadKSet(s, e) == IF e.exc # "none" THEN {"M08.crash"} ELSE KReport(e.theta, s.kers[e.ker].lo, s.kers[e.ker].hi, e.rep)
EffKSet(s, e) == [s EXCEPT !.kers[e.ker].theta = e.theta]
(* what rounding may do to a squared distance                                 *)
Rounding(th, x, y) == DMul("2e-15", DAdd(1, DSum([k \in 1..Len(x) |-> DMul(DTenTo(th[k]), DAdd(DSq(x[k]), DSq(y[k])))])))
KEntry(th, x, y, i, j, same, v) ==
    LET c == Corr(th, x, y)
        tol == DAdd("1e-12", Rounding(th, x, y))
    IN IF same THEN DClose(v, IF i = j THEN DAdd(c, Nugget) ELSE c, "0", tol)
    ELSE IF \A k \in 1..Len(x) : DEq(x[k], y[k]) THEN DLe(DSub(c, tol), v) /\ DLe(v, DAdd(DAdd(c, Nugget), tol))
    ELSE DClose(v, c, "0", tol)
BadKCall(s, e) ==
    LET k == s.kers[e.ker]  th == IF e.form = "params" THEN e.theta ELSE k.theta IN
    If(e.in0 = e.in1, "M08.input_modified")
    \cup (IF e.exc # "none" THEN {"M08.crash"}
          ELSE KReport(k.theta, k.lo, k.hi, e.rep)
          \cup (IF ~(e.shape = <<Len(e.X), Len(e.Y)>> /\ Len(e.out) = Len(e.X)) THEN {"M08.shape"}
                ELSE If(\A i \in 1..Len(e.X) : \A j \in 1..Len(e.Y) : KEntry(th, e.X[i], e.Y[j], i, j, e.X = e.Y, e.out[i][j]), "M08.entries")))
(* the Kronecker delta of two point sets                                     *)
BadDelta(e) == IF e.exc # "none" THEN {"M08.crash"}
               ELSE If(e.shape = <<Len(e.X), Len(e.Y)>> /\ \A i \in 1..Len(e.X) : \A j \in 1..Len(e.Y) :
                         LET d == DSum([k \in 1..Len(e.X[i]) |-> DSq(DSub(e.X[i][k], e.Y[j][k]))]) IN
                         IF DEq(d, 0) THEN DEq(e.out[i][j], 1) ELSE IF DLt("1e-12", d) THEN DEq(e.out[i][j], 0)
                         ELSE DEq(e.out[i][j], 0) \/ DEq(e.out[i][j], 1), "M08.delta")

(* another optimizer for the searches to come                                 *)
BadSwitch(s, e) == If(e.exc = "none", "M06.switch")
EffSwitch(s, e) == [s EXCEPT !.objs[e.obj].set.opt = e.opt]

BadMake(s, e) == If(e.exc = "none", "*.construction")
EffMake(s, e) == [s EXCEPT !.objs = Append(@, [set |-> e.set, trained |-> FALSE, runs |-> 0, eqs |-> FALSE, fine |-> FALSE, data |-> <<>>,
                                               key |-> <<>>, post |-> <<>>])]
Bad(s, e) == CASE e.op = "crash" -> {"*.crash"}
               [] e.op = "make" -> BadMake(s, e)
               [] e.op = "train" -> BadTrain(s, e)
               [] e.op = "predict" -> BadPredict(s, e)
               [] e.op = "overwrite" -> {}
               [] e.op = "switch" -> BadSwitch(s, e)
               [] e.op = "basis" -> BadBasis(e)
               [] e.op = "kmake" -> BadKMake(s, e)
               [] e.op = "kset" -> BadKSet(s, e)
               [] e.op = "kcall" -> BadKCall(s, e)
               [] e.op = "delta" -> BadDelta(e)
Eff(s, e) == CASE e.op = "make" -> EffMake(s, e)
               [] e.op = "train" -> EffTrain(s, e)
               [] e.op = "predict" -> EffPredict(s, e)
               [] e.op = "switch" -> EffSwitch(s, e)
               [] e.op = "kmake" -> EffKMake(s, e)
               [] e.op = "kset" -> EffKSet(s, e)
               [] OTHER -> s
====
