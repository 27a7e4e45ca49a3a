---- MODULE EvolutionGen ----
(* Sessions: what a user may do with optimizer objects, as behaviours of a    *)
(* small machine.  TLC's simulator draws them; the harness executes them.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxRuns, PsoPops, DePops, Gens
VARIABLES log, runs, todo, draft, fin
vars == <<log, runs, todo, draft, fin>>

PsoPars == { <<"0.8", "1.5", "1.5", "0.2">>, <<"0.5", "0", "2", "0.1">>, <<"1", "2", "0", "1">>,
             <<"0", "1", "1", "0.5">>, <<"0.3", "0.25", "0.5", "0.05">>, <<"1.2", "2", "2", "2">> }
DePars == { <<"0.5", "0.5">>, <<"0.9", "0">>, <<"0.3", "1">>, <<"1.5", "0.2">>, <<"0", "0.7">>, <<"-0.4", "1.5">> }
Make(alg) == << <<"par", IF alg = "pso" THEN PsoPars ELSE DePars>>,
                <<"strategy", IF alg = "pso" THEN {"none"} ELSE {"DE/rand/1/bin", "DE/best/1/bin"}>>,
                <<"pop", IF alg = "pso" THEN PsoPops ELSE DePops>>,
                <<"gens", Gens>>, <<"call", {"named", "positional", "bare"}>> >>
Objects == {k \in 1..Len(log) : log[k].op = "make"}
Runs == {k \in 1..Len(log) : log[k].op = "run"}
(* shape: the form in which the objective returns its values ("buffer": the   *)
(* same array every time, "cached": arrays it keeps and compares later);      *)
(* nest: the objective itself runs another optimizer; scribble: the caller     *)
(* overwrites the result once it has been read;                                *)
(* thr "at<k>"/"above<k>": exactly / just above the best value a first run     *)
(* reached in generation k; fail: the evaluation that raises (-1: none),     *)
(* in one run of four *)
Run(k) == << <<"space", 1..11>>,
             <<"f", {"smooth", "plateau", "flat", "steps", "corner", "negative", "needle", "fine", "huge", "tiny", "ridge", "zeros", "mixed"}>>,
             <<"thr", {"none", "-1e30", "-1e40", "0", "0.25", "-1", "1", "at0", "above0", "at1", "above1", "above2", "above9"}>>,
             <<"seed", 0..60>>, <<"save", BOOLEAN>>, <<"args", BOOLEAN>>, <<"print", BOOLEAN>>,
             <<"shape", {"col", "flat", "row", "list", "buffer", "cached", "int"}>>,
             <<"nest", BOOLEAN>>, <<"scribble", BOOLEAN>>,
             <<"fail", {-1, 0} \cup (1..log[k].gens)>>, <<"fails", 1..4>> >>
(* an earlier run again, on the same object or a fresh one with its settings  *)
Again == << <<"run", Runs>>, <<"fresh", BOOLEAN>> >>

Begin(d, f) == draft' = d /\ todo' = f
Idle == todo = <<>> /\ runs < MaxRuns
Start == /\ Idle
         /\ \/ \E alg \in {"pso", "de"} : (IF Len(log) = 0 THEN TRUE ELSE log[Len(log)].op # "make") /\ Begin([op |-> "make", alg |-> alg], Make(alg))
            \/ \E k \in Objects : Begin([op |-> "run", obj |-> k], Run(k))
            \/ Runs # {} /\ Begin([op |-> "again"], Again)
            \/ Runs # {} /\ Begin([op |-> "noise"], << <<"n", 1..3>> >>)
         /\ UNCHANGED <<log, runs>>
Choose == /\ todo # <<>>
          /\ \E v \in todo[1][2] : LET d == (todo[1][1] :> v) @@ draft IN
               /\ draft' = d
               /\ todo' = Tail(todo)
               /\ IF Len(todo) > 1 THEN UNCHANGED <<log, runs>>
                  ELSE /\ log' = Append(log, d)
                       /\ runs' = IF d.op \in {"run", "again"} THEN runs + 1 ELSE runs
Init == log = <<>> /\ runs = 0 /\ todo = <<>> /\ draft = <<>> /\ fin = FALSE
Finish == runs = MaxRuns /\ todo = <<>> /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<log, runs, todo, draft>>
Next == (UNCHANGED fin /\ (Start \/ Choose)) \/ Finish
Spec == Init /\ [][Next]_vars
Emit == fin => PrintT("SCENARIO " \o ToJson(log))
====
