---- MODULE EvolutionMC ----
(***************************************************************************)
(* Design model of the two optimizers on a small grid: the environment      *)
(* chooses initial populations, initial velocities, donors, crossover       *)
(* masks, replacements for coordinates that leave the space, objective      *)
(* values, failures and thresholds; the optimizer does what it is meant to  *)
(* do.  Its behaviours must be accepted by Evolution (Conform), corrupted   *)
(* ones rejected (Rejects), and the properties hold in every state.         *)
(***************************************************************************)
EXTENDS Evolution
CONSTANTS Alg, Pop, Gens, Dims, Top, Values0, Fails, Thresholds, Pars
VARIABLES st, v, runs
vars == <<st, v, runs>>

Grid == {ToString(k) : k \in 0..Top}
Points == [1..Dims -> Grid]
Dom == [j \in 1..Dims |-> <<"0", ToString(Top)>>]
K == 1..Pop
J == 1..Dims
ParSmall == IF Alg = "pso" THEN {[w |-> "1", cog |-> "1", soc |-> "1", vmax |-> "0.5"]}
            ELSE {[step |-> "1", cr |-> c, strategy |-> t] : c \in {"0.5"}, t \in {"DE/rand/1/bin", "DE/best/1/bin"}}
ParDeep == IF Alg = "pso" THEN {[w |-> w, cog |-> c, soc |-> "1", vmax |-> m] : w \in {"0", "1"}, c \in {"0", "2"}, m \in {"0.5", "1"}}
           ELSE {[step |-> t, cr |-> c, strategy |-> b] : t \in {"1", "-2"}, c \in {"0", "0.5", "1"}, b \in {"DE/rand/1/bin", "DE/best/1/bin"}}

Start(p, t) == [op |-> "start", alg |-> Alg, pop |-> Pop, gens |-> Gens, dom |-> Dom, par |-> p,
                thr |-> t, args |-> <<>>, save |-> TRUE]

(* what the swarm does next: velocity and tentative position of a coordinate *)
Vel(k, j) == Clamp(DAdd(DMul(st.par.w, v[k][j]),
                        DAdd(DMul(st.par.cog, DSub(st.pb[k][j], st.xs[k][j])),
                             DMul(st.par.soc, DSub((CHOOSE g \in st.ties : TRUE)[j], st.xs[k][j])))), Limit(st, j))
Inside(j, x) == DLe(Lo(st, j), x) /\ DLe(x, Hi(st, j))
(* replaced coordinates take any value inside                                *)
Places(j, x) == IF Inside(j, x) THEN {x} ELSE {"0", ToString(Top)}
RECURSIVE Product(_)
Product(ss) == IF ss = <<>> THEN {<<>>} ELSE {<<a>> \o r : a \in ss[1], r \in Product(Tail(ss))}
SwarmNext == Product([k \in K |-> Product([j \in J |-> Places(j, DAdd(st.xs[k][j], Vel(k, j)))])])

(* trials of parent i                                                        *)
Masks == {m \in SUBSET J : m # {}}
Trials(i) == UNION { Product([j \in J |-> IF j \in m THEN Places(j, DAdd(b[j], DMul(st.par.step, DSub(st.xs[p][j], st.xs[q][j]))))
                                        ELSE {st.xs[i][j]}])
                     : p \in K \ {i}, q \in K \ {i},
                       b \in IF st.par.strategy = "DE/best/1/bin" THEN {CHOOSE g \in st.ties : TRUE}
                             ELSE {st.xs[r] : r \in K \ {i}},
                       m \in {m \in Masks : /\ DEq(st.par.cr, 0) => Cardinality(m) = 1
                                            /\ DLe(1, st.par.cr) => m = J} }

NextPops == IF st.gen < 0 THEN Product([k \in K |-> Points])
            ELSE IF Alg = "pso" THEN SwarmNext ELSE Product([k \in K |-> Trials(k)])
Evals == { [op |-> "eval", rows |-> r, vals |-> y, args |-> <<>>, fail |-> FALSE] : r \in NextPops, y \in [K -> Values0] }
         \cup (IF Fails THEN { [op |-> "eval", rows |-> r, vals |-> <<>>, args |-> <<>>, fail |-> TRUE] :
                               r \in { CHOOSE r \in NextPops : TRUE } } ELSE {})

(* what the run reports: the point of the latest improvement                  *)
First(k) == CHOOSE x \in st.histx[k] : TRUE
Rec == [histx |-> [k \in 1..Len(st.hist) |-> First(k)], histy |-> st.hist, samples |-> st.pop_x,
        responses |-> st.pop_y, dom |-> Dom, popn |-> Pop, genn |-> Gens]
Result == [bestx |-> <<First(Len(st.hist))>>, besty |-> <<st.best>>, rety |-> <<st.best>>,
           retx |-> <<First(Len(st.hist))>>] @@ Rec
File == [written |-> st.gen >= 1, rest_empty |-> TRUE] @@ Rec
Ends == { [op |-> "end", exc |-> IF st.phase = "failed" THEN "scripted" ELSE "none",
           res |-> IF st.phase = "failed" THEN [none |-> 0] ELSE Result, file |-> File,
           key |-> "none", digest |-> "x"] }

Allowed == CASE st.phase = "idle" -> IF runs > 0 THEN {} ELSE {Start(p, t) : p \in Pars, t \in Thresholds}
             [] st.phase = "run" -> IF Stopped(st) THEN Ends ELSE Evals
             [] OTHER -> Ends

Init == st = NoState /\ v = <<>> /\ runs = 0
Next == \E e \in Allowed :
          /\ st' = Eff(st, e)
          /\ runs' = IF e.op = "end" THEN 1 ELSE runs
          /\ IF e.op = "eval" /\ Alg = "pso" /\ st.phase = "run" /\ ~e.fail
             THEN IF st.gen < 0 THEN v' \in [K -> [J -> {"0", "1"}]]
                  ELSE v' = [k \in K |-> [j \in J |-> Vel(k, j)]]
             ELSE v' = v
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Running == st.phase # "idle" /\ st.gen >= 0
Conform == \A e \in Allowed : Bad(st, e) = {}

MutEval(e) == { [e EXCEPT !.rows = SubSeq(@, 1, Pop - 1)], [e EXCEPT !.rows[1][1] = ToString(-1)],
                [e EXCEPT !.rows[Pop][Dims] = ToString(Top + 1)], [e EXCEPT !.args = <<"1">>] }
MutRec(r) == { [r EXCEPT !.histy = SubSeq(@, 1, Len(@) - 1)], [r EXCEPT !.histx = SubSeq(@, 1, Len(@) - 1)],
               [r EXCEPT !.histx[1] = <<"77">>], [r EXCEPT !.histy[1] = "77"],
               [r EXCEPT !.samples = SubSeq(@, 1, Len(@) - 1)], [r EXCEPT !.samples[Len(r.samples)][Pop] = <<"77">>],
               [r EXCEPT !.responses[1][1] = "77"], [r EXCEPT !.responses = SubSeq(@, 1, Len(@) - 1)],
               [r EXCEPT !.popn = 77] }
MutRes(r) == MutRec(r) \cup { [r EXCEPT !.besty = <<"-77">>], [r EXCEPT !.rety = <<"-77">>], [r EXCEPT !.retx = << <<"77">> >>],
                              [r EXCEPT !.bestx = << <<"77">> >>, !.retx = << <<"77">> >>] }
Mutants(e) ==
    CASE e.op = "eval" -> IF e.fail THEN {} ELSE MutEval(e) \cup { [op |-> "end", exc |-> "none", res |-> Result, file |-> File, key |-> "none", digest |-> "x"] }
      [] e.op = "end" -> { [e EXCEPT !.exc = IF @ = "none" THEN "IndexError" ELSE "none"] }
                         \cup (IF st.gen >= 1 THEN { [e EXCEPT !.file = m] : m \in MutRec(e.file) }
                                                   \cup { [e EXCEPT !.file.written = FALSE], [e EXCEPT !.file.rest_empty = FALSE] }
                               ELSE {})
                         \cup (IF st.phase = "failed" THEN {} ELSE { [e EXCEPT !.res = m] : m \in MutRes(e.res) }
                               \cup { [op |-> "eval", rows |-> st.xs, vals |-> st.ys, args |-> <<>>, fail |-> FALSE] })
      [] OTHER -> {}
(* one representative population per state suffices for the corrupted calls   *)
Some(A) == IF A = {} THEN {} ELSE {CHOOSE e \in A : TRUE}
Rejects == (st.phase # "run" \/ st.gen >= 0) => \A e \in Some(Allowed) : \A m \in Mutants(e) : Bad(st, m) # {}
(* moves outside what the rules allow are noticed: far from every trial       *)
InvE01 == Running => AllInBox(st, st.xs) /\ \A g \in 1..Len(st.pop_x) : AllInBox(st, st.pop_x[g])
InvE02 == Running => /\ Len(st.hist) = st.gen + 1
                     /\ \A k \in 2..Len(st.hist) : DLe(st.hist[k], st.hist[k - 1])
                     /\ st.hist[Len(st.hist)] = st.best
                     /\ \A g \in 1..Len(st.pop_y) : \A k \in K : DLe(st.best, st.pop_y[g][k])
                     /\ \E g \in 1..Len(st.pop_y) : \E k \in K : DEq(st.best, st.pop_y[g][k]) /\ st.pop_x[g][k] \in st.ties
InvE03 == Running => /\ st.gen <= Gens
                     /\ st.thr = "none" => (st.phase = "run" /\ Stopped(st) <=> st.phase = "run" /\ st.gen = Gens)
                     /\ \A k \in 2..(Len(st.hist) - 1) : st.thr = "none" \/ ~DLt(st.hist[k], st.thr)
InvE04 == (Running /\ Alg = "pso") =>
             /\ \A k \in K : \A g \in 1..Len(st.pop_y) : DLe(st.pby[k], st.pop_y[g][k])
             /\ (st.phase = "run" /\ v # <<>>) =>
                  \A k \in K : \A j \in J : /\ DLe(DAbs(v[k][j]), Limit(st, j))
                                            /\ DLe(st.vlo[k][j], v[k][j]) /\ DLe(v[k][j], st.vhi[k][j])
InvE05 == (Running /\ Alg = "de") => \A k \in K : \A g \in 2..Len(st.pop_y) : DLe(st.pop_y[g][k], st.pop_y[g - 1][k])
====
