---- MODULE Acquisition ----
(***************************************************************************)
(* Acquisition functions over surrogates: definitions, evaluation in batches *)
(* and one by one, over surrogates trained again in between, and queries     *)
(* (searches of the design space, choice of the fidelity).                   *)
(*                                                                          *)
(*  fit    a surrogate is trained on data (new object, or again)             *)
(*  acq    an acquisition function is made                                   *)
(*  eval   values at points X; what the surrogates predict there is part of  *)
(*         the event (P: objective, C: constraints)                          *)
(*  query  a search: what was searched, what was returned                    *)
(***************************************************************************)
EXTENDS Kriging, FiniteSets, TLC

If(c, name) == IF c THEN {} ELSE {name}
NoState == [surs |-> <<>>, acqs |-> <<>>, seen |-> <<>>]
MF == {"AEI", "VFEI", "VFLCB", "EPI"}
Multi(a) == a.name \in MF
Eps == "2.220446049250313e-16"

---------------------------------------------------------------------------
(* definitions; all are to be minimised                                       *)
Improve(d, s, z) == DAdd(DMul(d, DPhi(z)), DMul(s, Dpdf(z)))
EIof(f, m, s, floor) == LET d == DSub(f, m)  z == DDiv(d, DAdd(s, floor)) IN Improve(d, s, z)
PIof(f, m, s, floor) == DPhi(DDiv(DSub(f, m), DAdd(s, floor)))
Feasible(C, k) == \* probability that every constraint is at most zero
    LET q == [j \in 1..Len(C) |-> DPhi(DNeg(DDiv(C[j].m[k], DAdd(C[j].s[k], "1e-9"))))]
        RECURSIVE Prod(_)
        Prod(j) == IF j = 0 THEN "1" ELSE DMul(q[j], Prod(j - 1))
    IN Prod(Len(C))
Corr01(P, k, fid) == IF fid = 0 THEN "1" ELSE DDiv(P.ls[k], DAdd(DAbs(DSub(P.m[k], P.lm[k])), P.s[k]))
(* the trend coefficient of a hierarchical model                              *)
Beta(o) == LET m == Mean(o.yh)  s == Scale(o.yh)
               F == [i \in 1..Len(o.Xh) |-> << DDiv(DSub(o.lowh[i], m), s) >>]
           IN UK(o.th, UnitAll(o.S, o.Xh), F, Standard(o.yh, m, s), DDiv(o.noise, s)).beta[1]
(* the predicted value at the sample with the smallest mean plus deviation;   *)
(* several samples may attain it                                              *)
Effective(A) == LET u == [k \in 1..Len(A.m) |-> DAdd(A.m[k], A.s[k])]  b == DMinSeq(u)
                IN {A.m[k] : k \in {j \in 1..Len(u) : DLe(u[j], DAdd(b, DMul("1e-9", DAdd(DAbs(b), DAbs(A.m[j])))))}}
(* correlations with all samples of the fidelity, multiplied                  *)
Density(o, x, fid) ==
    LET X == UnitAll(o.S, IF fid = 0 THEN o.Xh ELSE o.Xl)  u == Unit(o.S, x)
        d == [i \in 1..Len(X) |-> DSum([k \in 1..Len(u) |-> DMul(DTenTo((IF fid = 0 THEN o.th ELSE o.lth)[k]), DSq(DSub(u[k], X[i][k])))])]
    IN DExp(DNeg(DSum(d)))
Value(o, a, P, C, x, k, fid, cr, f) ==
    LET m == P.m[k]  s == P.s[k] IN
    CASE a.name = "LCB" -> DSub(DMul(a.kappa[1], m), DMul(a.kappa[2], s))
      [] a.name = "EI" -> DNeg(EIof(f, m, s, "1e-9"))
      [] a.name = "PI" -> DNeg(PIof(f, m, s, "1e-9"))
      [] a.name = "CEI" -> DNeg(DMul(EIof(f, m, s, "1e-9"), Feasible(C, k)))
      [] a.name = "AEI" -> IF DLt(s, Eps) THEN "0"
                           ELSE DNeg(DMul(DMul(EIof(f, m, s, 0), Corr01(P, k, fid)), IF fid = 0 THEN 1 ELSE cr))
      [] a.name = "VFEI" -> LET t == IF fid = 0 THEN s ELSE DMul(DAbs(o.beta), P.ls[k]) IN
                            IF DLt(t, Eps) THEN "0" ELSE DNeg(EIof(f, m, t, "1e-8"))
      [] a.name = "VFLCB" -> DSub(DMul(a.kappa[1], m), DMul(a.kappa[2], IF fid = 0 THEN s ELSE DMul(P.ls[k], cr)))
      [] a.name = "EPI" -> IF DLt(s, Eps) THEN "0"
                           ELSE DNeg(DMul(DMul(PIof(f, m, s, 0), Corr01(P, k, fid)), DMul(IF fid = 0 THEN 1 ELSE cr, Density(o, x, fid))))
(* the value the improvement is measured against                              *)
Targets(o, a, e) == CASE a.name \in {"EI", "PI", "CEI"} -> {DMinSeq(o.yh)}
                      [] a.name = "AEI" -> Effective(e.A)
                      [] a.name \in {"VFEI", "EPI"} -> {e.fmin}
                      [] OTHER -> {"0"}

---------------------------------------------------------------------------
(* deviations at rounding level make improvements of that level undetermined  *)
Spread(o) == DAdd(DSub(DMaxSeq(o.yh), DMinSeq(o.yh)), DMul("1e-5", DMaxSeq([i \in 1..Len(o.yh) |-> DAbs(o.yh[i])])))
Settled(o, a, P, k) ==
    /\ a.name \in {"VFEI", "EPI"} => o.sound
    /\ a.name = "VFEI" => DLe("1e-9", DAbs(o.beta))        \* a trend coefficient of rounding size is not determined
    /\ o.exact \/ LET t == DMul("1e-3", Spread(o)) IN DLe(t, P.s[k]) /\ (Multi(a) => DLe(t, P.ls[k]))
Yard(o, a, P, x, k, fid, f, cr) ==
    CASE a.name = "PI" -> "1"
      [] a.name = "EPI" -> DMul(DMax2(1, cr), Density(o, x, fid))
      [] OTHER -> DMul(DMax2(1, cr), DSum(<<DAbs(P.m[k]), P.s[k], IF Multi(a) THEN P.ls[k] ELSE 0, DAbs(f)>>))
(* scripted predictions are known exactly                                     *)
Same(v, w, yard, tight) == DFinite(v) /\ DLe(DAbs(DSub(v, w)), DAdd(DAdd("1e-290", DMul(IF tight THEN "1e-12" ELSE "1e-8", yard)), DMul(IF tight THEN "1e-7" ELSE "1e-5", DAbs(w))))
Supported(o, a) == IF a.name = "VFEI" THEN o.kind = "hk" ELSE IF Multi(a) THEN o.kind # "gp" ELSE o.kind = "gp"
Rule(a) == IF Multi(a) THEN "A02." ELSE "A01."
Match(o, a, P, C, X, vals, fid, cr, f) ==
    \A k \in 1..Len(X) : Settled(o, a, P, k) =>
        Same(vals[k], Value(o, a, P, C, X[k], k, fid, cr, f), Yard(o, a, P, X[k], k, fid, f, cr), o.exact)
SurKey(s, e) == <<e.sur, s.surs[e.sur].run, [j \in 1..Len(e.cons) |-> <<e.cons[j], s.surs[e.cons[j]].run>>]>>
Key(s, e) == <<SurKey(s, e), e.acq, e.fid, e.cr, e.fmin>>
BadEval(s, e) ==
    LET o == s.surs[e.sur]  a == s.acqs[e.acq]  n == Len(e.X)  r == Rule(a) IN
    If(e.in0 = e.in1, r \o "points_modified")
    \cup If(e.sur0 = e.sur1, r \o "surrogate_changed")
    \cup (IF ~Supported(o, a) THEN If(e.exc = "ValueError", r \o "unsupported_model")
          ELSE IF Multi(a) /\ e.fid \notin {0, 1} THEN If(e.exc = "ValueError", "A02.unknown_fidelity")
          ELSE IF e.exc # "none" THEN {r \o "crash"}
          ELSE IF Len(e.out) # n THEN {r \o "shape"}
          ELSE LET ts == Targets(o, a, e) IN
               If(\E f \in ts : Match(o, a, e.P, e.C, e.X, e.out, e.fid, e.cr, f), r \o "value")
               \cup If(\A i \in 1..Len(s.seen) : s.seen[i].key = Key(s, e) =>
                         \A k \in 1..n : (s.seen[i].x = e.X[k] /\ Settled(o, a, e.P, k)) =>
                             Same(e.out[k], s.seen[i].v, Yard(o, a, e.P, e.X[k], k, e.fid, CHOOSE f \in ts : TRUE, e.cr), FALSE), r \o "depends_on_history"))
EffEval(s, e) == IF e.exc # "none" \/ Len(e.out) # Len(e.X) THEN s
                 ELSE [s EXCEPT !.seen = @ \o [k \in 1..Len(e.X) |-> [key |-> Key(s, e), x |-> e.X[k], v |-> e.out[k]]]]

---------------------------------------------------------------------------
(* queries                                                                    *)
Inside(S, x) == Len(x) = Len(S) /\ \A k \in 1..Len(S) : LET w == DMul("1e-12", DSub(S[k][2], S[k][1])) IN
                    DLe(DSub(S[k][1], w), x[k]) /\ DLe(x[k], DAdd(S[k][2], w))
BoxOf(q, S) == q.num = Len(S) /\ Len(q.lo) = Len(S) /\ \A k \in 1..Len(S) : DEq(q.lo[k], S[k][1]) /\ DEq(q.hi[k], S[k][2])
(* the search looks at this fidelity's values                                 *)
Looks(o, a, q, cr, fid, f) ==
    \A j \in 1..Len(q.probes) : LET p == q.probes[j] IN
        Settled(o, a, p.P, 1) => Same(p.val, Value(o, a, p.P, p.C, p.x, 1, fid, cr, f), Yard(o, a, p.P, p.x, 1, fid, f, cr), FALSE)
(* ... or at the predicted mean                                               *)
Means(o, q) == \A j \in 1..Len(q.probes) : LET p == q.probes[j] IN DClose(p.val, p.P.m[1], "1e-7", DMul("1e-7", Spread(o)))
(* what improvements are measured against: the extended probability of        *)
(* improvement searches for the smallest predicted mean first                 *)
Scanned(o, e) == {j \in 1..Len(e.scans) : Means(o, e.scans[j])}
QTargets(o, a, e) == IF a.name = "EPI" THEN {e.scans[j].val : j \in Scanned(o, e)} ELSE Targets(o, a, e)
Dense(o, a, e, fid, f) == [k \in 1..Len(e.dense) |-> Value(o, a, e.dense[k].P, e.dense[k].C, e.dense[k].x, 1, fid, e.cr, f)]
Fids(a) == IF Multi(a) THEN {0, 1} ELSE {0}
(* the result is better than nine in ten of the sampled points, up to the     *)
(* tolerance of a search                                                      *)
Tenth(n) == (n + 9) \div 10
Good(o, a, e, f) ==
    LET all == [fid \in Fids(a) |-> Dense(o, a, e, fid, f)]
        lo == DMinSeq([i \in 1..Cardinality(Fids(a)) |-> DMinSeq(all[i - 1])])
        hi == DMaxSeq([i \in 1..Cardinality(Fids(a)) |-> DMaxSeq(all[i - 1])])
        v == Value(o, a, e.rP, e.rC, e.x, 1, e.rfid, e.cr, f)
        t == DSub(v, DAdd(DMul("0.05", DSub(hi, lo)), DMul("1e-7", Yard(o, a, e.rP, e.x, 1, e.rfid, f, e.cr))))
    IN Cardinality({<<k, fid>> \in (1..Len(e.dense)) \X Fids(a) : DLt(all[fid][k], t)}) <= Tenth(Len(e.dense))
LowMean(o, e, f) == LET t == DSub(f, DMul("1e-2", Spread(o))) IN
    Cardinality({k \in 1..Len(e.dense) : DLt(e.dense[k].P.m[1], t)}) <= Tenth(Len(e.dense))
Looked(o, a, e, f) == \* an assignment of the searches to the fidelities
    IF ~Multi(a) THEN Len(e.searches) = 1 /\ Looks(o, a, e.searches[1], e.cr, 0, f)
    ELSE Len(e.searches) = 2 /\ \E p \in {<<1, 2>>, <<2, 1>>} : \A fid \in {0, 1} : Looks(o, a, e.searches[p[fid + 1]], e.cr, fid, f)
Chosen(o, a, e, f) ==
    IF ~Multi(a) THEN e.x = e.searches[1].x
    ELSE \E p \in {<<1, 2>>, <<2, 1>>} :
           /\ \A fid \in {0, 1} : Looks(o, a, e.searches[p[fid + 1]], e.cr, fid, f)
           /\ e.rfid = (IF DLe(e.searches[p[1]].val, e.searches[p[2]].val) THEN 0 ELSE 1)
           /\ e.x = e.searches[p[e.rfid + 1]].x
BadQuery(s, e) ==
    LET o == s.surs[e.sur]  a == s.acqs[e.acq] IN
    If(e.sur0 = e.sur1, "A03.surrogate_changed")
    \cup (IF ~Supported(o, a) THEN If(e.exc = "ValueError", "A03.unsupported_model")
          ELSE IF e.exc # "none" THEN {"A03.crash"}
          ELSE IF ~Inside(o.S, e.x) THEN {"A03.outside"}
          ELSE IF Multi(a) /\ e.rfid \notin {0, 1} THEN {"A03.fidelity"}
          ELSE LET ts == QTargets(o, a, e)
                   seen == (a.opt # "none" \/ Len(e.searches) > 0) /\ ts # {} IN
               If(\A j \in 1..Len(e.searches) : BoxOf(e.searches[j], o.S), "A03.box")
               \cup If(\A j \in 1..Len(e.searches) : e.searches[j].by = a.opt, "A03.optimizer")
               \cup If(a.opt # "none" => Len(e.searches) = Cardinality(Fids(a)), "A03.searches")
               \cup (IF seen /\ ~\E f \in ts : Looked(o, a, e, f) THEN {"A03.objective"}
                     ELSE If(seen => \E f \in ts : Chosen(o, a, e, f), "A03.choice"))
               \cup If((a.opt = "none" /\ ts # {}) => \E f \in ts : Good(o, a, e, f), "A03.not_best")
               \cup If(a.name = "EPI" => \A f \in ts : LowMean(o, e, f), "A03.mean_search"))

---------------------------------------------------------------------------
BadFit(s, e) == If(e.exc = "none", "*.construction")
EffFit(s, e) ==
    LET o == [kind |-> e.kind, S |-> e.S, Xh |-> e.Xh, yh |-> e.yh, Xl |-> e.Xl, th |-> e.th, lth |-> e.lth, noise |-> e.noise,
              lowh |-> e.lowh, exact |-> e.exact, sound |-> e.sound]
        q == o @@ [beta |-> IF o.kind = "hk" THEN Beta(o) ELSE "0", run |-> IF e.sur <= Len(s.surs) THEN s.surs[e.sur].run + 1 ELSE 1]
    IN IF e.sur <= Len(s.surs) THEN [s EXCEPT !.surs[e.sur] = q] ELSE [s EXCEPT !.surs = Append(@, q)]
BadAcq(s, e) == If(e.exc = "none", "*.construction")
EffAcq(s, e) == [s EXCEPT !.acqs = Append(@, [name |-> e.name, kappa |-> e.kappa, opt |-> e.opt])]

Bad(s, e) == CASE e.op = "crash" -> {"*.crash"}
               [] e.op = "fit" -> BadFit(s, e)
               [] e.op = "acq" -> BadAcq(s, e)
               [] e.op = "eval" -> BadEval(s, e)
               [] e.op = "query" -> BadQuery(s, e)
Eff(s, e) == CASE e.op = "fit" -> EffFit(s, e)
               [] e.op = "acq" -> EffAcq(s, e)
               [] e.op = "eval" -> EffEval(s, e)
               [] OTHER -> s
====
