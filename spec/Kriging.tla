---- MODULE Kriging ----
(***************************************************************************)
(* The surrogate models as equations: kernel, trend bases, universal        *)
(* Kriging, hierarchical, scaled and co-Kriging, and the fitted likelihoods.*)
(* Points are sequences of numbers, data sets sequences of points/numbers.  *)
(***************************************************************************)
EXTENDS Dec

Nugget == "1e-10"
(* log10 length scales th                                                    *)
Corr(th, x, y) == DExp(DNeg(DSum([k \in 1..Len(x) |-> DMul(DTenTo(th[k]), DSq(DSub(x[k], y[k])))])))
(* correlations of X with itself, noise ns added to the diagonal             *)
Gram(th, X, ns) == DFix([i \in 1..Len(X) |-> [j \in 1..Len(X) |->
                      IF i = j THEN DSum(<<1, Nugget, DSq(ns)>>) ELSE Corr(th, X[i], X[j])]])
Cross(th, X, x) == DFix([i \in 1..Len(X) |-> Corr(th, X[i], x)])

(* trend bases: 0 constant, 1 linear, 2 quadratic                            *)
RECURSIVE Products(_, _, _)
Products(x, i, j) == IF i > Len(x) THEN <<>> ELSE IF j > Len(x) THEN Products(x, i + 1, i + 1)
                     ELSE <<DMul(x[i], x[j])>> \o Products(x, i, j + 1)
Basis(deg, x) == <<"1">> \o (IF deg >= 1 THEN x ELSE <<>>) \o (IF deg >= 2 THEN Products(x, 1, 1) ELSE <<>>)

(* scaling                                                                   *)
Unit(S, x) == DFix([k \in 1..Len(S) |-> DDiv(DSub(x[k], S[k][1]), DSub(S[k][2], S[k][1]))])
UnitAll(S, X) == DFix([i \in 1..Len(X) |-> Unit(S, X[i])])
Mean(y) == DDiv(DSum(y), Len(y))
Dev(y) == LET m == Mean(y) IN DSqrt(DDiv(DSum([i \in 1..Len(y) |-> DSq(DSub(y[i], m))]), Len(y)))
Constant(y) == \A i \in 1..Len(y) : DEq(y[i], y[1])
Scale(y) == IF Constant(y) THEN "1" ELSE Dev(y)
Standard(y, m, s) == DFix([i \in 1..Len(y) |-> DDiv(DSub(y[i], m), s)])
ColumnOf(F, c) == DFix([i \in 1..Len(F) |-> F[i][c]])

---------------------------------------------------------------------------
(* universal Kriging of standardised y at scaled X with trend matrix F,      *)
(* scaled noise ns                                                           *)
UK(th, X, F, y, ns) ==
    LET n == Len(X)  p == Len(F[1])
        K == Gram(th, X, ns)
        KF == DFix([c \in 1..p |-> DSolve(K, ColumnOf(F, c))])                 \* columns of K^-1 F
        G == DFix([a \in 1..p |-> [b \in 1..p |-> DDot(ColumnOf(F, a), KF[b])]])
        beta == DSolve(G, [c \in 1..p |-> DDot(KF[c], y)])
        r == DFix([i \in 1..n |-> DSub(y[i], DDot(F[i], beta))])
        gamma == DSolve(K, r)
    IN [th |-> th, X |-> X, F |-> F, K |-> K, KF |-> KF, G |-> G, beta |-> beta, gamma |-> gamma,
        s2 |-> DDiv(DDot(r, gamma), n), ns |-> ns]
UKMean(g, x, f) == DAdd(DDot(f, g.beta), DDot(Cross(g.th, g.X, x), g.gamma))
(* variance of the process, without noise                                    *)
UKVar(g, x, f) ==
    LET k == Cross(g.th, g.X, x)
        d == DSolve(g.K, k)
        u == [c \in 1..Len(f) |-> DSub(f[c], DDot(ColumnOf(g.F, c), d))]
    IN DMul(g.s2, DSum(<<1, DNeg(DDot(k, d)), DDot(u, DSolve(g.G, u))>>))

(* negative log likelihood: concentrated over the process variance without   *)
(* noise, of the unit-variance process otherwise.  Responses that the trend  *)
(* explains exactly leave a process variance of rounding size: its logarithm *)
(* is not determined                                                         *)
NLL(th, X, F, y, ns, noisefree) ==
    LET g == UK(th, X, F, y, ns)
        half == DMul("0.5", DLn(DDet(g.K)))
    IN DAdd(half, DMul(DMul("0.5", Len(X)), IF noisefree THEN (IF DLt(g.s2, "1e-20") THEN "nan" ELSE DLn(g.s2)) ELSE g.s2))

---------------------------------------------------------------------------
(* Gaussian process on raw data: space S, degree deg, noise (raw units)      *)
GP(S, deg, th, X, y, noise) ==
    LET m == Mean(y)  s == Scale(y)  U == UnitAll(S, X)
    IN [uk |-> UK(th, U, DFix([i \in 1..Len(U) |-> Basis(deg, U[i])]), Standard(y, m, s), DDiv(noise, s)),
        S |-> S, deg |-> deg, m |-> m, s |-> s, noise |-> noise]
GPMean(g, x) == LET u == Unit(g.S, x) IN DAdd(g.m, DMul(g.s, UKMean(g.uk, u, Basis(g.deg, u))))
GPVar(g, x) == LET u == Unit(g.S, x) IN
    DAdd(DMul(DSq(g.s), DMax2(0, UKVar(g.uk, u, Basis(g.deg, u)))), DSq(g.noise))

(* hierarchical Kriging: the low-fidelity mean is the only trend             *)
HK(S, low, th, X, y, noise) ==
    LET m == Mean(y)  s == Scale(y)  U == UnitAll(S, X)
        F == DFix([i \in 1..Len(X) |-> << DDiv(DSub(GPMean(low, X[i]), m), s) >>])
    IN [uk |-> UK(th, U, F, Standard(y, m, s), DDiv(noise, s)), S |-> S, low |-> low, m |-> m, s |-> s, noise |-> noise]
HKTrend(h, x) == << DDiv(DSub(GPMean(h.low, x), h.m), h.s) >>
HKMean(h, x) == DAdd(h.m, DMul(h.s, UKMean(h.uk, Unit(h.S, x), HKTrend(h, x))))
HKVar(h, x) == DAdd(DMul(DSq(h.s), DMax2(0, UKVar(h.uk, Unit(h.S, x), HKTrend(h, x)))), DSq(h.noise))

(* scaled Kriging: rho times the low-fidelity model plus the discrepancy     *)
SKDisc(low, rho, X, y) == DFix([i \in 1..Len(X) |-> DSub(y[i], DMul(rho, GPMean(low, X[i])))])
SK(S, low, rho, th, X, y, noise) == [low |-> low, rho |-> rho, disc |-> GP(S, 0, th, X, SKDisc(low, rho, X, y), noise)]
SKMean(h, x) == DAdd(DMul(h.rho, GPMean(h.low, x)), GPMean(h.disc, x))
SKVar(h, x) == DAdd(DMul(DSq(h.rho), GPVar(h.low, x)), GPVar(h.disc, x))

(* co-Kriging: both fidelities are standardised with the high-fidelity data; *)
(* noise levels nl, nh are in standardised units                             *)
CK(S, thl, nl, rho, th, nh, Xl, yl, Xh, yh) ==
    LET m == Mean(yh)  s == Scale(yh)
        Ul == UnitAll(S, Xl)  Uh == UnitAll(S, Xh)
        zl == Standard(yl, m, s)  zh == Standard(yh, m, s)
        low == UK(thl, Ul, [i \in 1..Len(Ul) |-> <<"1">>], zl, nl)
        d == DFix([i \in 1..Len(Uh) |-> DSub(zh[i], DMul(rho, UKMean(low, Uh[i], <<"1">>)))])
        dif == UK(th, Uh, [i \in 1..Len(Uh) |-> <<"1">>], d, nh)
        nL == Len(Ul)  nH == Len(Uh)
        C == DFix([i \in 1..(nL + nH) |-> [j \in 1..(nL + nH) |->
               DAdd(IF i = j THEN Nugget ELSE "0",
                 IF i <= nL /\ j <= nL THEN DMul(low.s2, low.K[i][j])
                 ELSE IF i <= nL THEN DMul(DMul(rho, low.s2), Corr(thl, Ul[i], Uh[j - nL]))
                 ELSE IF j <= nL THEN DMul(DMul(rho, low.s2), Corr(thl, Uh[i - nL], Ul[j]))
                 ELSE DAdd(DMul(DMul(DSq(rho), low.s2), IF i = j THEN "1" ELSE Corr(thl, Uh[i - nL], Uh[j - nL])),
                           DMul(dif.s2, dif.K[i - nL][j - nL])))]])
        z == zl \o zh
        one == DFix([i \in 1..(nL + nH) |-> "1"])
        C1 == DSolve(C, one)
        mu == DDiv(DDot(C1, z), DDot(C1, one))
    IN [S |-> S, low |-> low, dif |-> dif, rho |-> rho, C |-> C, mu |-> mu, m |-> m, s |-> s, nl |-> nl, nh |-> nh,
        w |-> DSolve(C, [i \in 1..(nL + nH) |-> DSub(z[i], mu)])]
CKCov(h, u) ==
    DFix([i \in 1..Len(h.low.X) |-> DMul(DMul(h.rho, h.low.s2), Corr(h.low.th, h.low.X[i], u))]
    \o [i \in 1..Len(h.dif.X) |-> DAdd(DMul(DMul(DSq(h.rho), h.low.s2), Corr(h.low.th, h.dif.X[i], u)),
                                       DMul(h.dif.s2, Corr(h.dif.th, h.dif.X[i], u)))])
CKMean(h, x) == LET u == Unit(h.S, x) IN DAdd(h.m, DMul(h.s, DAdd(h.mu, DDot(CKCov(h, u), h.w))))
CKVar(h, x) ==
    LET u == Unit(h.S, x)  c == CKCov(h, u)
        v == DSum(<<DMul(DSq(h.rho), h.low.s2), h.dif.s2, DNeg(DDot(c, DSolve(h.C, c)))>>)
    IN DMul(DSq(h.s), DAdd(DMax2(0, v), DSq(h.nh)))
CKLowMean(h, x) == DAdd(h.m, DMul(h.s, UKMean(h.low, Unit(h.S, x), <<"1">>)))
CKLowVar(h, x) == DMul(DSq(h.s), DAdd(DMax2(0, UKVar(h.low, Unit(h.S, x), <<"1">>)), DSq(h.nl)))
====
