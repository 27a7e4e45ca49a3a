---- MODULE BayesOpt ----
(***************************************************************************)
(* The three Bayesian optimization loops of mfpml as one state machine.     *)
(*                                                                          *)
(*   loop = "sf"    BayesUnConsOpt      one archive, objective              *)
(*   loop = "cons"  BayesConsOpt        one archive, objective, constraints *)
(*   loop = "mf"    mfUnConsBayesOpt    archives 1 (high) and 2 (low)       *)
(*                                                                          *)
(* A state is the abstract content of one optimizer object.  An event is    *)
(* one observable step of it: construction, start of a run, a query of the  *)
(* acquisition, an evaluation of the problem (or its failure), end of the   *)
(* run.  Bad(s, e) is the set of rules (named <property>.<rule>) that event *)
(* e breaks in state s; Eff(s, e) is the state after it.  The design model  *)
(* (BayesOptMC) and the trace checker (BayesOptTrace) use the same two      *)
(* operators.                                                               *)
(***************************************************************************)
EXTENDS Dec, FiniteSets, TLC

NoState == [phase |-> "none", seen |-> <<>>]

(* rules of one property broken: a set of names *)
If(c, name) == IF c THEN {} ELSE {name}

------------------------------------------------------------------------------
(* Archives.  A row is [x, y, c]: point, objective, constraint values.       *)
Points(a) == [k \in 1..Len(a) |-> a[k].x]
Values(a) == [k \in 1..Len(a) |-> a[k].y]

Feasible(row) == \A k \in 1..Len(row.c) : DLe(row.c[k], 0)

(* rows that compete for the incumbent: the high-fidelity feasible ones      *)
Rank(a) == SelectSeq(a, Feasible)

BestOf(a) == IF Len(Rank(a)) = 0 THEN "inf" ELSE DMinSeq(Values(Rank(a)))

(* ps is a legal report of the incumbent point(s) of archive a               *)
IsIncumbent(a, ps) ==
    IF Len(Rank(a)) = 0 THEN ps = <<>>
    ELSE /\ Len(ps) >= 1
         /\ \A k \in 1..Len(ps) :
              \E j \in 1..Len(a) : /\ a[j].x = ps[k]
                                   /\ Feasible(a[j])
                                   /\ DEq(a[j].y, BestOf(a))

IsPrefix(u, v) == Len(u) <= Len(v) /\ SubSeq(v, 1, Len(u)) = u

(* error of the incumbent against a known optimum                            *)
Error(s) == IF s.opt = "none" THEN "inf"
            ELSE IF ~DFinite(s.best) THEN "inf"
            ELSE IF DEq(s.opt, 0) THEN DAbs(DSub(s.best, s.opt))
            ELSE DAbs(DDiv(DSub(s.best, s.opt), s.opt))

(* the loop makes another iteration                                          *)
Continue(s) == /\ s.iter < s.max
               /\ IF s.loop = "mf" THEN DLt(s.thr, Error(s)) ELSE DLe(s.thr, Error(s))

(* kinds of evaluation an iteration at fidelity f consists of                *)
Kinds(loop, f) == CASE loop = "sf" -> {"f"} [] loop = "cons" -> {"f", "c"}
                    [] OTHER -> IF f = 0 THEN {"h"} ELSE {"l"}

InDomain(x, dom) == /\ Len(x) = Len(dom)
                    /\ \A k \in 1..Len(x) : DLe(dom[k][1], x[k]) /\ DLe(x[k], dom[k][2])

------------------------------------------------------------------------------
(* What the object exposes between two steps (archives, initial design,      *)
(* incumbent, histories) must be what the state says.                        *)
Inc(s) == IF s.loop = "cons" THEN "B05" ELSE "B02"

BadSnap(s, p) ==
    (* archives *)
       If(p.arch = s.arch, "B01.archive")
    \cup If(p.init = s.init, "B01.initial_design_changed")
    (* incumbent *)
    \cup If(DEq(p.best, s.best), Inc(s) \o ".best_is_min")
    \cup If(IsIncumbent(s.arch[1], p.bestx), Inc(s) \o ".best_point")
    (* histories *)
    \cup If(Len(p.hist) = Len(s.hist), Inc(s) \o ".history_length")
    \cup If(Len(p.histx) = Len(s.hist), Inc(s) \o ".history_length")
    \cup If(Len(p.hist) # Len(s.hist) \/ \A k \in 1..Len(s.hist) : DEq(p.hist[k], s.hist[k]),
            Inc(s) \o ".history")
    \cup If(IsPrefix(s.histx, p.histx), Inc(s) \o ".history_changed")
    \cup If(Len(p.histx) # Len(s.hist) \/
            \A k \in (Len(s.histx) + 1)..Len(p.histx) :
                IsIncumbent(SubSeq(s.arch[1], 1, s.sizes[k]), p.histx[k]),
            Inc(s) \o ".history_point")
    \cup (IF s.loop = "mf" THEN If(p.order = s.order, "B01.fidelity_order") ELSE {})

(* a failed evaluation happened before: what breaks now also breaks B07      *)
AlsoFailed(s, bad) == IF s.failed /\ bad # {} THEN bad \cup {"B07.state_after_failure"} ELSE bad

AllRules(s) == {"B01.crash", "B03.crash", "B04.crash", "B06.crash", Inc(s) \o ".crash"}
                 \cup (IF s.failed THEN {"B07.crash"} ELSE {})

------------------------------------------------------------------------------
(* construction: e.evals are the evaluations made, e.snap what it exposes    *)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Evaluated(e, kind, what) ==
    Cat([k \in 1..Len(e.evals) |->
            IF e.evals[k].kind # kind THEN <<>>
            ELSE IF what = "rows" THEN e.evals[k].rows ELSE e.evals[k].vals])

NewArch(e) ==
    CASE e.loop = "sf" ->
           LET xs == Evaluated(e, "f", "rows")  ys == Evaluated(e, "f", "vals") IN
           << [k \in 1..Len(xs) |-> [x |-> xs[k], y |-> ys[k][1], c |-> <<>>]] >>
      [] e.loop = "cons" ->
           LET xs == Evaluated(e, "f", "rows")  ys == Evaluated(e, "f", "vals")
               cs == Evaluated(e, "c", "vals") IN
           << [k \in 1..Len(xs) |-> [x |-> xs[k], y |-> ys[k][1],
                                     c |-> IF k <= Len(cs) THEN cs[k] ELSE <<1>>]] >>
      [] OTHER ->
           LET xh == Evaluated(e, "h", "rows")  yh == Evaluated(e, "h", "vals")
               xl == Evaluated(e, "l", "rows")  yl == Evaluated(e, "l", "vals") IN
           << [k \in 1..Len(xh) |-> [x |-> xh[k], y |-> yh[k][1], c |-> <<>>]],
              [k \in 1..Len(xl) |-> [x |-> xl[k], y |-> yl[k][1], c |-> <<>>]] >>

Fresh(s, e) ==
    LET a == NewArch(e) IN
    [phase |-> "idle", loop |-> e.loop, dom |-> e.dom, arch |-> a, init |-> a,
     best |-> BestOf(a[1]), bestx |-> <<>>, hist |-> <<BestOf(a[1])>>, histx |-> <<>>,
     sizes |-> <<Len(a[1])>>, order |-> <<>>, iter |-> 0, max |-> 0, thr |-> "0",
     opt |-> "none", cr |-> "1", x |-> <<>>, fid |-> 0, left |-> {}, got |-> <<>>,
     failed |-> FALSE, seen |-> s.seen]

BadNew(s, e) ==
    IF e.exc # "none" THEN {"B01.crash", "B02.crash", "B03.crash", "B04.crash", "B05.crash",
                            "B06.crash", "B07.crash"}
    ELSE LET n == Fresh(s, e) IN
       If(\A f \in 1..Len(n.arch) : Len(n.arch[f]) = e.n[f], "B01.initial_size")
    \cup If(\A f \in 1..Len(n.arch) : \A k \in 1..Len(n.arch[f]) : InDomain(n.arch[f][k].x, n.dom),
            "B01.initial_in_domain")
    \cup If(e.loop # "cons" \/ Evaluated(e, "f", "rows") = Evaluated(e, "c", "rows"),
            "B01.initial_constraints")
    \cup BadSnap(n, e.snap)

------------------------------------------------------------------------------
(* start of a run                                                            *)
BadRun(s, e) == {}
EffRun(s, e) == [s EXCEPT !.phase = "head", !.iter = 0, !.max = e.max, !.thr = e.thr,
                          !.opt = e.opt, !.cr = e.cr]

(* the loop asks the acquisition: e.x, e.fid is the answer                   *)
Role(s, r) == CASE r.role = "obj" -> Values(s.arch[1])
                [] r.role = "hf"  -> Values(s.arch[1])
                [] r.role = "lf"  -> Values(s.arch[2])
                [] OTHER -> [k \in 1..Len(s.arch[1]) |-> s.arch[1][k].c[r.num]]
Where(s, r) == IF r.role = "lf" THEN Points(s.arch[2]) ELSE Points(s.arch[1])
NumRoles(s) == CASE s.loop = "sf" -> 1 [] s.loop = "mf" -> 2
                 [] OTHER -> 1 + Len(s.arch[1][1].c)

SameValues(u, v) == Len(u) = Len(v) /\ \A k \in 1..Len(u) : DEq(u[k], v[k])
Spread(v) == DAdd(DSub(DMaxSeq(v), DMinSeq(v)), "0.1")
Reproduces(r, want) ==
    /\ Len(r.pred) = Len(want)
    /\ \A k \in 1..Len(want) : DClose(r.pred[k], want[k], 0, DMul("0.02", Spread(want)))

BadSur(s, r) ==
       If(r.has = "no" \/ r.xs = Where(s, r), "B04.points")
    \cup If(r.has = "no" \/ SameValues(r.ys, Role(s, r)), "B04.responses")
    \cup If(Reproduces(r, Role(s, r)), "B04.reproduces")

BadQuery(s, e) ==
       If(s.phase = "head", IF s.phase = "failed" THEN "B07.query_after_failure" ELSE "B03.query_outside_loop")
    \cup If(s.phase # "head" \/ Continue(s), "B03.continues_after_stop")
    \cup AlsoFailed(s, BadSnap(s, e.snap)
         \cup If(Len(e.sur) = NumRoles(s), "B04.surrogates")
         \cup UNION {BadSur(s, e.sur[k]) : k \in 1..Len(e.sur)}
         \cup (IF s.loop = "mf" THEN If(DEq(e.fmin, s.best), "B04.incumbent")
                                \cup If(DEq(e.cr, s.cr), "B04.cost_ratio") ELSE {}))
(* the acquisition may fail as well: then the iteration has not happened     *)
EffQuery(s, e) ==
    IF e.fail THEN [s EXCEPT !.phase = "failed", !.failed = TRUE, !.left = {},
                             !.histx = e.snap.histx, !.bestx = e.snap.bestx]
    ELSE [s EXCEPT !.phase = "queried", !.x = e.x, !.fid = e.fid,
                   !.left = Kinds(s.loop, e.fid), !.got = <<>>,
                   !.histx = e.snap.histx, !.bestx = e.snap.bestx]

(* one evaluation of the problem                                             *)
BadEval(s, e) ==
       If(s.phase = "queried", "B01.evaluation_without_query")
    \cup If(s.phase # "queried" \/ e.kind \in s.left, "B01.wrong_evaluation")
    \cup If(s.phase # "queried" \/ e.rows = <<s.x>>, "B01.evaluated_point")
    \cup If(s.phase # "failed", "B07.evaluates_after_failure")

(* after the last evaluation of an iteration the loop must archive it        *)
Got(got, ks) == LET q == SelectSeq(got, LAMBDA g : g.kind \in ks) IN
                IF Len(q) = 0 THEN <<>> ELSE q[1].vals
Complete(s, got) ==
    LET row == [x |-> s.x, y |-> Got(got, {"f", "h", "l"})[1], c |-> Got(got, {"c"})]
        a == [s.arch EXCEPT ![IF s.fid = 0 THEN 1 ELSE 2] = Append(@, row)]
        b == BestOf(a[1])
    IN  [s EXCEPT !.arch = a, !.best = b, !.hist = Append(@, b), !.sizes = Append(@, Len(a[1])),
                  !.order = Append(@, s.fid), !.iter = @ + 1, !.phase = "head", !.left = {}, !.got = <<>>]

EffEval(s, e) ==
    IF s.phase # "queried" \/ e.kind \notin s.left THEN s
    ELSE IF e.fail THEN [s EXCEPT !.phase = "failed", !.failed = TRUE, !.left = {}]
    ELSE LET got == Append(s.got, [kind |-> e.kind, vals |-> e.vals[1]])
             l == s.left \ {e.kind}
         IN IF l = {} THEN Complete(s, got) ELSE [s EXCEPT !.left = l, !.got = got]

(* end of a run, normal or by an error                                       *)
BadEnd(s, e) ==
    IF s.phase = "failed"
    THEN (* the error must reach the caller and nothing may have happened     *)
       If(e.exc = "scripted", "B07.error_swallowed")
    \cup (IF BadSnap(s, e.snap) = {} THEN {}
          ELSE {"B07.state_after_failure"} \cup BadSnap(s, e.snap))
    ELSE IF e.exc # "none" THEN AllRules(s)
    ELSE AlsoFailed(s,
       If(s.phase = "head", "B01.iteration_incomplete")
    \cup If(s.phase # "head" \/ ~Continue(s), "B03.stops_early")
    \cup BadSnap(s, e.snap)
    \cup (IF e.ret.has = "no" THEN {}
          ELSE If(DEq(e.ret.best, s.best), Inc(s) \o ".returned_best")
               \cup If(IsIncumbent(s.arch[1], e.ret.bestx), Inc(s) \o ".returned_point")))
(* what the object exposes is adopted, so that one breach is reported once   *)
EffEnd(s, e) ==
    [s EXCEPT !.phase = "idle", !.left = {}, !.got = <<>>,
              !.arch = IF Len(e.snap.arch) = Len(s.arch) /\ (\A f \in 1..Len(s.arch) : Len(e.snap.arch[f]) > 0)
                       THEN e.snap.arch ELSE s.arch,
              !.best = IF e.snap.best = "none" THEN s.best ELSE e.snap.best,
              !.hist = e.snap.hist, !.histx = e.snap.histx,
              !.sizes = [k \in 1..Len(e.snap.hist) |-> IF k <= Len(s.sizes) THEN s.sizes[k]
                                                        ELSE Len(s.arch[1])],
              !.order = e.snap.order, !.bestx = e.snap.bestx]

------------------------------------------------------------------------------
(* reproducibility: outcome of one complete create-and-run with a given key  *)
(* (problem, acquisition, sizes, settings, seed), after arbitrary activity   *)
BadFinal(s, e) ==
       If(e.exc = "none", "B06.crash")
    \cup If(\A k \in 1..Len(s.seen) : s.seen[k].key = e.key => s.seen[k].digest = e.digest,
            "B06.reproducible")
    \cup If(\A k \in 1..Len(s.seen) : (s.seen[k].base = e.base /\ s.seen[k].seed # e.seed)
                                        => s.seen[k].initial # e.initial,
            "B06.seed_ignored")
    \cup If(e.problem0 = e.problem1, "B06.problem_modified")
    \cup If(e.n0 = e.n1, "B06.sizes_modified")
EffFinal(s, e) == [s EXCEPT !.seen = Append(@, [key |-> e.key, digest |-> e.digest, base |-> e.base,
                                                seed |-> e.seed, initial |-> e.initial])]

------------------------------------------------------------------------------
Bad(s, e) == CASE e.op = "crash" -> {"*.crash"}
               [] e.op = "new" -> BadNew(s, e)
               [] e.op = "run" -> BadRun(s, e)
               [] e.op = "query" -> BadQuery(s, e)
               [] e.op = "eval" -> BadEval(s, e)
               [] e.op = "end" -> BadEnd(s, e)
               [] e.op = "final" -> BadFinal(s, e)
Eff(s, e) == CASE e.op = "crash" -> s
               [] e.op = "new" -> IF e.exc = "none" THEN [Fresh(s, e) EXCEPT !.histx = e.snap.histx, !.bestx = e.snap.bestx] ELSE s
               [] e.op = "run" -> EffRun(s, e)
               [] e.op = "query" -> EffQuery(s, e)
               [] e.op = "eval" -> EffEval(s, e)
               [] e.op = "end" -> EffEnd(s, e)
               [] e.op = "final" -> EffFinal(s, e)
====
