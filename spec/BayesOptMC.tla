---- MODULE BayesOptMC ----
(***************************************************************************)
(* Design model of the loops: the environment chooses initial designs,      *)
(* queried points and fidelities, responses, failures, budgets, thresholds  *)
(* and optima; the loop does what the code is meant to do.  Checked         *)
(* exhaustively within the constants of BayesOptMC.cfg; the same            *)
(* behaviours, printed, are the scenarios replayed into the real code.      *)
(***************************************************************************)
EXTENDS BayesOpt, Json
CONSTANTS Loops, Values0, Cons0, NumCons, Sizes, MaxRuns, Budgets, Thresholds, Optima, Fails,
          Again, Record
VARIABLES st, runs, pts, h
vars == <<st, runs, pts, h>>

Dom == << <<"0", "9">> >>
Pt(k) == << ToString(k) >>
SeqsOf(S, n) == [1..n -> S]

(* what a correct object exposes in state s *)
Reported(s) == LET a == s.arch[1]
                   R == SelectSeq(a, LAMBDA r : Feasible(r) /\ DEq(r.y, BestOf(a)))
               IN IF Len(R) = 0 THEN <<>> ELSE IF s.loop = "cons" THEN Points(R) ELSE <<R[1].x>>
Snap(s) == [arch |-> s.arch, init |-> s.init, best |-> s.best, bestx |-> Reported(s), hist |-> s.hist,
            histx |-> IF Len(s.histx) = Len(s.hist) THEN s.histx ELSE Append(s.histx, Reported(s)),
            order |-> s.order]
Sur(s) == LET a == s.arch[1]
              R(role, i, f, ys) == [role |-> role, num |-> i, has |-> "yes", xs |-> Points(s.arch[f]), ys |-> ys, pred |-> ys]
          IN IF s.loop = "mf" THEN <<R("hf", 0, 1, Values(a)), R("lf", 0, 2, Values(s.arch[2]))>>
             ELSE <<R("obj", 0, 1, Values(a))>> \o
                  (IF s.loop = "sf" THEN <<>> ELSE
                   [k \in 1..NumCons |-> R("con", k, 1, [j \in 1..Len(a) |-> a[j].c[k]])])

(* responses at the initial design: all of them, or (scenarios) some patterns *)
Pattern(n, f(_)) == [k \in 1..n |-> f(k)]
Starts(n) == IF ~Record THEN SeqsOf(Values0, n) ELSE
    { Pattern(n, LAMBDA k : "1"), Pattern(n, LAMBDA k : IF k = n THEN "-2" ELSE "2"),
      Pattern(n, LAMBDA k : IF k = 1 THEN "0" ELSE "3"), Pattern(n, LAMBDA k : IF k = 1 THEN "-3" ELSE "-1"),
      Pattern(n, LAMBDA k : ToString(2 * k)), Pattern(n, LAMBDA k : ToString(5 - k)) }
ConsStarts(n) == IF ~Record THEN SeqsOf(SeqsOf(Cons0, NumCons), n) ELSE
    { [k \in 1..n |-> [j \in 1..NumCons |-> IF k = 1 THEN "0" ELSE "-2"]],
      [k \in 1..n |-> [j \in 1..NumCons |-> IF k = n THEN "1" ELSE "-1"]],
      [k \in 1..n |-> [j \in 1..NumCons |-> IF j = NumCons THEN "2" ELSE "-1"]],
      [k \in 1..n |-> [j \in 1..NumCons |-> IF k = 1 THEN "1" ELSE IF k = j THEN "0" ELSE "0.5"]],
      [k \in 1..n |-> [j \in 1..NumCons |-> IF k = 1 THEN "0" ELSE ToString(k)]] }

News == UNION { LET sz == Sizes[l] IN
          UNION { LET nh == n[1]  nl == IF l = "mf" THEN n[2] ELSE 0
                      mk(ys, cs, yl) ==
                        LET rows == [k \in 1..nh |-> Pt(k)]
                            lrows == [k \in 1..nl |-> Pt(k)]
                            base == [op |-> "new", exc |-> "none", loop |-> l, dom |-> Dom, n |-> n,
                                     evals |-> CASE l = "sf" -> << [kind |-> "f", rows |-> rows, vals |-> [k \in 1..nh |-> <<ys[k]>>]] >>
                                                 [] l = "cons" -> << [kind |-> "f", rows |-> rows, vals |-> [k \in 1..nh |-> <<ys[k]>>]],
                                                                     [kind |-> "c", rows |-> rows, vals |-> cs] >>
                                                 [] OTHER -> << [kind |-> "h", rows |-> rows, vals |-> [k \in 1..nh |-> <<ys[k]>>]],
                                                                [kind |-> "l", rows |-> lrows, vals |-> [k \in 1..nl |-> <<yl[k]>>]] >>]
                        IN base @@ [snap |-> Snap(Fresh(NoState, base))]
                  IN { mk(ys, cs, yl) : ys \in Starts(nh),
                                        cs \in IF l = "cons" THEN ConsStarts(nh) ELSE {<<>>},
                                        yl \in IF l = "mf" THEN Starts(nl) ELSE {<<>>} }
                : n \in sz }
        : l \in Loops }

Kind1(s) == CHOOSE k \in s.left : "f" \in s.left => k = "f"
(* a point that was evaluated before (at that fidelity) answers as it did     *)
Before(s) == SelectSeq(s.arch[IF s.fid = 0 THEN 1 ELSE 2], LAMBDA r : r.x = s.x)
EvalVals(s) == IF Len(Before(s)) > 0 THEN {IF Kind1(s) = "c" THEN Before(s)[1].c ELSE <<Before(s)[1].y>>}
               ELSE IF Kind1(s) = "c" THEN SeqsOf(Cons0, NumCons) ELSE SeqsOf(Values0, 1)
(* where the next point may lie: somewhere new, or on an archived point       *)
News1 == [f |-> 0, k |-> 0]
(* (scenarios: k = 0..6 is only a weight for new points in random behaviours) *)
Places(s) == {[f |-> 0, k |-> k] : k \in IF Record /\ Again THEN 0..6 ELSE {0}} \cup (IF ~Again THEN {} ELSE
                 IF Record THEN {[f |-> f, k |-> k] : f \in {1}, k \in {Len(s.arch[1])}}
                                \cup {[f |-> f, k |-> 1] : f \in 1..Len(s.arch)}
                 ELSE {[f |-> f, k |-> 1] : f \in 1..Len(s.arch)})
At(s, p) == IF p.f = 0 THEN Pt(pts) ELSE s.arch[p.f][p.k].x

MayFail(s) == Fails /\ (Record \/ ~s.failed)
Allowed(s) ==
    CASE s.phase = "none" -> News
      [] s.phase = "idle" -> IF runs = MaxRuns THEN {} ELSE
           { [op |-> "run", max |-> m, thr |-> t, opt |-> o, cr |-> "2"] :
               m \in Budgets, t \in Thresholds,
               o \in IF runs = 0 \/ Again THEN Optima ELSE {s.opt} }
      [] s.phase = "head" ->
           IF Continue(s)
           THEN { [op |-> "query", x |-> At(s, p), place |-> p, fid |-> f, fmin |-> s.best, cr |-> s.cr,
                   sur |-> Sur(s), snap |-> Snap(s), fail |-> FALSE]
                   : f \in IF s.loop = "mf" THEN {0, 1} ELSE {0}, p \in Places(s) }
                \cup (IF ~MayFail(s) THEN {} ELSE
                 { [op |-> "query", x |-> <<>>, place |-> News1, fid |-> 0, fmin |-> s.best, cr |-> s.cr,
                    sur |-> Sur(s), snap |-> Snap(s), fail |-> TRUE] })
           ELSE { [op |-> "end", exc |-> "none", snap |-> Snap(s),
                   ret |-> [has |-> "yes", best |-> s.best, bestx |-> Reported(s)]] }
      [] s.phase = "queried" ->
           { [op |-> "eval", kind |-> Kind1(s), rows |-> <<s.x>>, vals |-> <<v>>, fail |-> FALSE] : v \in EvalVals(s) }
           \cup (IF ~MayFail(s) THEN {} ELSE
                 { [op |-> "eval", kind |-> Kind1(s), rows |-> <<s.x>>, vals |-> <<>>, fail |-> TRUE] })
      [] s.phase = "failed" -> { [op |-> "end", exc |-> "scripted", snap |-> Snap(s), ret |-> [has |-> "no"]] }

(* the choices of the environment, enough to replay the behaviour            *)
Choice(e) == CASE e.op = "new" -> [op |-> "new", loop |-> e.loop, n |-> e.n, evals |-> e.evals]
               [] e.op = "run" -> e
               [] e.op = "query" -> [op |-> "query", fid |-> e.fid, place |-> e.place, fail |-> e.fail]
               [] e.op = "eval" -> [op |-> "eval", kind |-> e.kind, vals |-> e.vals, fail |-> e.fail]
               [] OTHER -> [op |-> "end"]

Init == st = NoState /\ runs = 0 /\ pts = 5 /\ h = <<>>
Next == \E e \in Allowed(st) :
          /\ st' = Eff(st, e)
          /\ runs' = IF e.op = "run" THEN runs + 1 ELSE runs
          /\ pts' = IF e.op = "query" THEN pts + 1 ELSE pts
          /\ h' = IF Record THEN Append(h, Choice(e)) ELSE h
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
SizesTiny == [sf |-> {<<1>>}, cons |-> {<<1>>}, mf |-> {<<1, 1>>}]
SizesSmall == [sf |-> {<<1>>, <<2>>}, cons |-> {<<2>>}, mf |-> {<<1, 2>>}]
SizesLong == [sf |-> {<<9>>, <<12>>}, cons |-> {<<9>>, <<12>>}, mf |-> {<<7, 12>>, <<4, 14>>, <<8, 8>>}]
SizesGen == [sf |-> {<<2>>, <<3>>}, cons |-> {<<2>>, <<3>>}, mf |-> {<<2, 3>>, <<2, 2>>, <<3, 4>>}]
Live == st.phase # "none"
Last(q) == q[Len(q)]

Conform == \A e \in Allowed(st) : Bad(st, e) = {}

(* corrupted observations: every one must be rejected                        *)
MutSnap(p) ==
    LET a == p.arch[1] IN
    { [p EXCEPT !.arch[1] = SubSeq(a, 1, Len(a) - 1)],
      [p EXCEPT !.arch[1] = Append(a, Last(a))],
      [p EXCEPT !.arch[1][1].y = "77"],
      [p EXCEPT !.arch[1][Len(a)].x = <<"78">>],
      [p EXCEPT !.init[1][1].y = "77"],
      [p EXCEPT !.best = "-77"],
      [p EXCEPT !.bestx = << <<"78">> >>],
      [p EXCEPT !.hist = Append(@, Last(@))],
      [p EXCEPT !.hist = SubSeq(@, 1, Len(@) - 1)],
      [p EXCEPT !.hist[1] = "77"],
      [p EXCEPT !.histx[1] = << <<"78">> >>] }
Mutants(s, e) ==
    CASE e.op = "new" -> { [e EXCEPT !.snap = m] : m \in MutSnap(e.snap) }
                         \cup { [e EXCEPT !.exc = "ValueError"], [e EXCEPT !.n[1] = @ + 1],
                                [e EXCEPT !.dom[1][2] = "0.5"] }
      [] e.op = "query" -> { [e EXCEPT !.snap = m] : m \in MutSnap(e.snap) }
                         \cup { [e EXCEPT !.sur[1].xs = SubSeq(@, 1, Len(@) - 1)],
                                [e EXCEPT !.sur[1].ys[1] = "77"],
                                [e EXCEPT !.sur[1].pred[1] = "77"],
                                [e EXCEPT !.sur = <<>>],
                                [op |-> "end", exc |-> "none", snap |-> e.snap, ret |-> [has |-> "no"]] }
                         \cup (IF s.loop = "mf" THEN { [e EXCEPT !.fmin = "-77"], [e EXCEPT !.cr = "77"] } ELSE {})
      [] e.op = "eval" -> { [e EXCEPT !.kind = "zz"], [e EXCEPT !.rows = << <<"78">> >>],
                            [e EXCEPT !.rows = @ \o @] }
      [] e.op = "end" -> { [e EXCEPT !.snap = m] : m \in MutSnap(e.snap) }
                         \cup { [e EXCEPT !.exc = IF @ = "none" THEN "ValueError" ELSE "none"] }
                         \cup (IF s.phase = "failed" THEN {} ELSE
                               { [op |-> "query", x |-> <<"8">>, fid |-> 0, fmin |-> s.best, cr |-> s.cr,
                                  sur |-> Sur(s), snap |-> Snap(s), fail |-> FALSE],
                                 [e EXCEPT !.ret.best = "-77"], [e EXCEPT !.ret.bestx = << <<"78">> >>] })
      [] OTHER -> {}
Rejects == \A e \in Allowed(st) : \A m \in Mutants(st, e) : Bad(st, m) # {}

(* the properties, on the state *)
InvB02 == (Live /\ st.loop # "cons") =>
            /\ DEq(st.best, DMinSeq(Values(st.arch[1])))
            /\ Len(st.hist) = Len(st.order) + 1
            /\ Last(st.hist) = st.best
            /\ \A k \in 2..Len(st.hist) : DLe(st.hist[k], st.hist[k - 1])
InvB05 == (Live /\ st.loop = "cons") =>
            /\ (st.best = "inf") <=> (\A k \in 1..Len(st.arch[1]) : ~Feasible(st.arch[1][k]))
            /\ \A k \in 1..Len(st.arch[1]) : Feasible(st.arch[1][k]) => DLe(st.best, st.arch[1][k].y)
            /\ \A k \in 1..Len(st.histx) : st.histx[k] = <<>> <=> st.hist[k] = "inf"
            /\ Last(st.hist) = st.best
            /\ \A k \in 2..Len(st.hist) : DLe(st.hist[k], st.hist[k - 1])
InvB03 == Live => (/\ st.iter <= st.max
                   /\ (st.opt = "none" /\ st.phase = "idle" /\ ~st.failed /\ runs > 0) => st.iter = st.max)
InvB01 == Live => (\A f \in 1..Len(st.arch) : IsPrefix(st.init[f], st.arch[f]))
                  /\ Cardinality({k \in 1..Len(st.order) : st.order[k] = 0}) = Len(st.arch[1]) - Len(st.init[1])
(* one new row at most, in one archive, nothing else moves                   *)
AppendOnly == [][(Live /\ st'.phase # "none") =>
                   /\ \A f \in 1..Len(st.arch) : IsPrefix(st.arch[f], st'.arch[f])
                   /\ st'.init = st.init
                   /\ IsPrefix(st.hist, st'.hist)
                   /\ IsPrefix(st.histx, st'.histx)
                   /\ (st'.arch # st.arch => Len(st'.hist) = Len(st.hist) + 1)]_vars
(* B07: a failed iteration leaves no mark                                     *)
FailureLeavesNoMark == [][(Live /\ st.phase = "failed") =>
                            (st'.arch = st.arch /\ st'.hist = st.hist /\ st'.best = st.best)]_vars

(* scenarios *)
Emit == (Record /\ runs = MaxRuns /\ st.phase = "idle") => PrintT("SCENARIO " \o ToJson(h))
====
