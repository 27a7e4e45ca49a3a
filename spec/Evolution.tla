---- MODULE Evolution ----
(***************************************************************************)
(* Particle swarm optimization and differential evolution as state          *)
(* machines over their objective calls: one event per evaluated generation. *)
(* A session is a sequence of runs, on one object or on several.            *)
(*                                                                          *)
(*  start  a run begins (algorithm, settings, space, threshold)             *)
(*  eval   the objective is called with a generation (or fails)             *)
(*  end    the run returns (or raises); results and checkpoint file         *)
(*  later  earlier results and the caller's space, looked at again          *)
(***************************************************************************)
EXTENDS Dec, FiniteSets, TLC

If(c, name) == IF c THEN {} ELSE {name}
NoState == [phase |-> "idle", seen |-> <<>>]

Lo(s, j) == s.dom[j][1]
Hi(s, j) == s.dom[j][2]
Width(s, j) == DSub(Hi(s, j), Lo(s, j))
InBox(s, x) == /\ Len(x) = Len(s.dom)
               /\ \A j \in 1..Len(x) : DLe(Lo(s, j), x[j]) /\ DLe(x[j], Hi(s, j))
AllInBox(s, xs) == \A k \in 1..Len(xs) : InBox(s, xs[k])
(* rounding of the additions in one move *)
Tol(s, j) == DAdd(DMul("1e-9", Width(s, j)), DMul("1e-13", DMax2(DAbs(Lo(s, j)), DAbs(Hi(s, j)))))

------------------------------------------------------------------------------
(* best point(s) so far: value and all points evaluated with it              *)
RECURSIVE Ties(_, _, _, _)
Ties(xs, ys, b, k) == IF k > Len(xs) THEN {}
                      ELSE (IF DEq(ys[k], b) THEN {xs[k]} ELSE {}) \cup Ties(xs, ys, b, k + 1)
NewBest(s, ys) == IF s.gen < 0 THEN DMinSeq(ys) ELSE DMin2(s.best, DMinSeq(ys))
NewTies(s, xs, ys) ==
    LET b == NewBest(s, ys) IN
    (IF s.gen >= 0 /\ DEq(b, s.best) THEN s.ties ELSE {}) \cup Ties(xs, ys, b, 1)

Stopped(s) == s.gen = s.gens \/ (s.gen >= 1 /\ s.thr # "none" /\ DLt(s.best, s.thr))

------------------------------------------------------------------------------
(* particle swarm: one coordinate.  The velocity is not observable; it lies  *)
(* in [vlo, vhi], initially [0, limit], and is known after a free move.      *)
Limit(s, j) == DMul(s.par.vmax, Width(s, j))
Clamp(v, m) == DMax2(DNeg(m), DMin2(v, m))
Pull(s, k, j, g) == DAdd(DMul(s.par.cog, DSub(s.pb[k][j], s.xs[k][j])),
                         DMul(s.par.soc, DSub(g[j], s.xs[k][j])))
VNext(s, k, j, g, v) == Clamp(DAdd(DMul(s.par.w, v), Pull(s, k, j, g)), Limit(s, j))
VRange(s, k, j, g) ==
    LET a == VNext(s, k, j, g, s.vlo[k][j])  b == VNext(s, k, j, g, s.vhi[k][j])
    IN <<DMin2(a, b), DMax2(a, b)>>
(* the coordinate may have left the space / certainly stayed                 *)
MayLeave(s, k, j, r) == \/ DLt(DAdd(s.xs[k][j], r[1]), DAdd(Lo(s, j), Tol(s, j)))
                        \/ DLt(DSub(Hi(s, j), Tol(s, j)), DAdd(s.xs[k][j], r[2]))
Moved(s, k, j, r, x) == /\ DLe(DSub(DAdd(s.xs[k][j], r[1]), Tol(s, j)), x)
                        /\ DLe(x, DAdd(DAdd(s.xs[k][j], r[2]), Tol(s, j)))
CoordOK(s, k, j, g, x) == LET r == VRange(s, k, j, g) IN Moved(s, k, j, r, x) \/ MayLeave(s, k, j, r)
SwarmOK(s, xs, g) == \A k \in 1..Len(xs) : \A j \in 1..Len(s.dom) : CoordOK(s, k, j, g, xs[k][j])
(* every best point that explains the generation may have been the leader     *)
Leaders(s, xs) == IF \E g \in s.ties : SwarmOK(s, xs, g) THEN {g \in s.ties : SwarmOK(s, xs, g)} ELSE s.ties
VAfter1(s, k, j, g, x) == LET r == VRange(s, k, j, g) IN
                          IF MayLeave(s, k, j, r) THEN r
                          ELSE <<DSub(x, s.xs[k][j]), DSub(x, s.xs[k][j])>>
RECURSIVE Hull(_)
Hull(R) == LET r == CHOOSE r \in R : TRUE IN IF Cardinality(R) = 1 THEN r ELSE
           LET q == Hull(R \ {r}) IN <<DMin2(r[1], q[1]), DMax2(r[2], q[2])>>
VAfter(s, k, j, G, x) == Hull({VAfter1(s, k, j, g, x) : g \in G})

------------------------------------------------------------------------------
(* differential evolution: one trial u of parent i                           *)
Others(s, i) == (1..Len(s.xs)) \ {i}
Mutant(s, b, p, q) == [j \in 1..Len(b) |-> DAdd(b[j], DMul(s.par.step, DSub(s.xs[p][j], s.xs[q][j])))]
FromMutant(s, m, j, u) == \/ DClose(u, m[j], 0, Tol(s, j))
                          \/ DLt(m[j], DAdd(Lo(s, j), Tol(s, j)))
                          \/ DLt(DSub(Hi(s, j), Tol(s, j)), m[j])
FromParent(s, i, j, u) == u = s.xs[i][j]
Explains(s, i, u, m) ==
    LET J == 1..Len(s.dom)
        only == {j \in J : ~FromParent(s, i, j, u[j])}       \* must come from the mutant
        can == {j \in J : FromMutant(s, m, j, u[j])}
    IN /\ only \subseteq can
       /\ can # {}
       /\ DEq(s.par.cr, 0) => Cardinality(only) <= 1
       /\ DLe(1, s.par.cr) => can = J
Bases(s, i) == IF s.par.strategy = "DE/best/1/bin" THEN s.ties ELSE {s.xs[r] : r \in Others(s, i)}
TrialOK(s, i, u) == \E p \in Others(s, i) : \E q \in Others(s, i) : \E b \in Bases(s, i) :
                        Explains(s, i, u, Mutant(s, b, p, q))

------------------------------------------------------------------------------
BadEval(s, e) ==
    IF s.phase # "run" THEN {"E03.evaluation_outside_run"}
    ELSE If(Len(e.rows) = s.pop, "E03.population_size")
    \cup If(e.args = s.args, "E03.arguments")
    \cup If(s.gen < s.gens, "E03.too_many_evaluations")
    \cup If(s.gen >= s.gens \/ ~Stopped(s), "E03.continues_after_stop")
    \cup If(AllInBox(s, e.rows), "E01.evaluated_outside")
    \cup (IF s.gen < 0 \/ Len(e.rows) # s.pop \/ (\E k \in 1..Len(e.rows) : Len(e.rows[k]) # Len(s.dom)) THEN {}
          ELSE IF s.alg = "pso"
          THEN If(\E g \in s.ties : SwarmOK(s, e.rows, g), "E04.move")
          ELSE If(\A i \in 1..s.pop : TrialOK(s, i, e.rows[i]), "E05.trial"))

Keep(s, e, k) == s.alg = "de" /\ s.gen >= 0 /\ ~DLt(e.vals[k], s.ys[k])
EffEval(s, e) ==
    IF s.phase # "run" \/ Len(e.rows) # s.pop \/ (\E k \in 1..Len(e.rows) : Len(e.rows[k]) # Len(s.dom)) THEN s
    ELSE IF e.fail THEN [s EXCEPT !.phase = "failed"]
    ELSE LET K == 1..s.pop
             J == 1..Len(s.dom)
             G == IF s.alg = "pso" /\ s.gen >= 0 THEN Leaders(s, e.rows) ELSE {}
             v == IF s.alg # "pso" THEN <<>> ELSE
                  [k \in K |-> [j \in J |-> IF s.gen < 0 THEN <<"0", Limit(s, j)>>
                                            ELSE VAfter(s, k, j, G, e.rows[k][j])]]
             xs == [k \in K |-> IF Keep(s, e, k) THEN s.xs[k] ELSE e.rows[k]]
             ys == [k \in K |-> IF Keep(s, e, k) THEN s.ys[k] ELSE e.vals[k]]
             better(k) == s.gen < 0 \/ DLe(e.vals[k], s.pby[k])
         IN [s EXCEPT !.gen = @ + 1,
                      !.best = NewBest(s, e.vals), !.ties = NewTies(s, e.rows, e.vals),
                      !.hist = Append(@, NewBest(s, e.vals)),
                      !.histx = Append(@, NewTies(s, e.rows, e.vals)),
                      !.xs = xs, !.ys = ys,
                      !.pop_x = Append(@, xs), !.pop_y = Append(@, ys),
                      !.pb = [k \in K |-> IF better(k) THEN e.rows[k] ELSE s.pb[k]],
                      !.pby = [k \in K |-> IF better(k) THEN e.vals[k] ELSE s.pby[k]],
                      !.vlo = IF v = <<>> THEN <<>> ELSE [k \in K |-> [j \in J |-> v[k][j][1]]],
                      !.vhi = IF v = <<>> THEN <<>> ELSE [k \in K |-> [j \in J |-> v[k][j][2]]]]

------------------------------------------------------------------------------
SameValues(u, v) == Len(u) = Len(v) /\ \A k \in 1..Len(u) : DEq(u[k], v[k])
SameNested(u, v) == Len(u) = Len(v) /\ \A k \in 1..Len(u) : SameValues(u[k], v[k])

(* record r describes the first n generations of s                           *)
Histories(s, r, n) ==
    /\ SameValues(SubSeq(s.hist, 1, n), r.histy)
    /\ Len(r.histx) = n
    /\ \A k \in 1..n : r.histx[k] \in s.histx[k]
Populations(s, r, n) == r.samples = SubSeq(s.pop_x, 1, n) /\ SameNested(r.responses, SubSeq(s.pop_y, 1, n))

BadFile(s, e) ==
    IF ~s.save THEN If(~e.file.written, "E07.file_without_saving")
    ELSE IF s.gen < 1 THEN {}
    ELSE IF ~e.file.written THEN {"E07.no_checkpoint"}
    ELSE LET n == s.gen + 1  f == e.file IN
         If(Histories(s, f, n), "E07.histories")
    \cup If(Populations(s, f, n), "E07.populations")
    \cup If(f.rest_empty, "E07.future_generations")
    \cup If(f.dom = s.dom /\ f.popn = s.pop /\ f.genn = s.gens, "E07.settings")

BadEnd(s, e) ==
    IF s.phase = "idle" THEN {"E03.no_run"}
    ELSE BadFile(s, e) \cup
    (IF s.phase = "failed" THEN If(e.exc = "scripted", "E07.error_swallowed")
     ELSE IF e.exc # "none" THEN {"E01.crash", "E02.crash", "E03.crash", "E04.crash", "E05.crash", "E06.crash", "E07.crash"}
     ELSE LET n == s.gen + 1  r == e.res IN
         If(s.gen >= 0 /\ Stopped(s), "E03.stops_early")
    \cup (IF s.gen < 0 THEN {} ELSE
         If(SameValues(r.besty, <<s.best>>), "E02.best_value")
    \cup If(Len(r.bestx) = 1 /\ r.bestx[1] \in s.ties, "E02.best_point")
    \cup If(SameValues(r.rety, <<s.best>>), "E02.returned_value")
    \cup If(r.retx = r.bestx, "E02.returned_point")
    \cup If(SameValues(r.besty, r.rety), "E02.returned_value")
    \cup If(SameValues(SubSeq(s.hist, 1, n), r.histy), "E02.history_values")
    \cup If(Len(r.histx) = n /\ \A k \in 1..n : r.histx[k] \in s.histx[k], "E02.history_points")
    \cup If(AllInBox(s, r.bestx) /\ AllInBox(s, r.histx)
            /\ \A k \in 1..Len(r.samples) : AllInBox(s, r.samples[k]), "E01.reported_outside")
    \cup If(r.dom = s.dom /\ r.popn = s.pop /\ r.genn = s.gens, "E02.settings")
    \cup (IF s.alg = "de"
          THEN If(Populations(s, r, n), "E05.survivors")
          ELSE If(Populations(s, r, n), "E02.samples"))))
    \cup (IF e.key = "none" \/ s.phase = "failed" THEN {}
          ELSE If(\A k \in 1..Len(s.seen) : s.seen[k].key = e.key => s.seen[k].digest = e.digest,
                  "E06.reproducible"))
EffEnd(s, e) == [phase |-> "idle",
                 seen |-> IF e.key = "none" \/ e.exc # "none" THEN s.seen
                          ELSE Append(s.seen, [key |-> e.key, digest |-> e.digest])]

------------------------------------------------------------------------------
(* an undefined strategy: the run must be refused                            *)
BadStart(s, e) == If(s.phase = "idle", "E03.nested_run")
EffStart(s, e) == [phase |-> "run", seen |-> s.seen, alg |-> e.alg, pop |-> e.pop, gens |-> e.gens,
                   dom |-> e.dom, par |-> e.par, thr |-> e.thr, args |-> e.args, save |-> e.save,
                   gen |-> -1, xs |-> <<>>, ys |-> <<>>, pb |-> <<>>, pby |-> <<>>, vlo |-> <<>>,
                   vhi |-> <<>>, best |-> "inf", ties |-> {}, hist |-> <<>>, histx |-> <<>>,
                   pop_x |-> <<>>, pop_y |-> <<>>]
BadRefuse(s, e) == If(e.exc \notin {"none", "Hang"}, "E05.undefined_strategy_accepted")
BadLater(s, e) == If(e.results0 = e.results1, "E06.earlier_results_changed")
             \cup If(e.space0 = e.space1, "E06.design_space_changed")
             \cup If(e.values0 = e.values1, "E06.objective_values_changed")

Bad(s, e) == CASE e.op = "crash" -> {"*.crash"}
               [] e.op = "start" -> BadStart(s, e)
               [] e.op = "eval" -> BadEval(s, e)
               [] e.op = "end" -> BadEnd(s, e)
               [] e.op = "refuse" -> BadRefuse(s, e)
               [] e.op = "later" -> BadLater(s, e)
Eff(s, e) == CASE e.op = "start" -> EffStart(s, e)
               [] e.op = "eval" -> EffEval(s, e)
               [] e.op = "end" -> EffEnd(s, e)
               [] OTHER -> s
====
