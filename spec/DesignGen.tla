---- MODULE DesignGen ----
(* Sessions with sampler objects, drawn by TLC's simulator.                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps, Kinds, Hows
VARIABLES log, n, todo, draft, fin
vars == <<log, n, todo, draft, fin>>

AllKinds == {"lhs", "random", "sobol", "fixed", "mflhs", "mfsobol"}
AllHows == {"same", "fresh", "smaller", "larger", "reseeded", "seeds", "reskip"}
IsMulti(k) == k \in {"mflhs", "mfsobol"}
IsSobol(k) == k \in {"sobol", "mfsobol"}
(* spaces: index of the harness' table (per fidelity for the list form)       *)
Make(k) == << <<"space", 1..11>>,
              <<"form", IF IsMulti(k) THEN {"array", "list", "mixed"} ELSE {"array", "lists", "flat"}>>,
              <<"levels", IF IsMulti(k) THEN {1, 2, 3, 4, 5} ELSE {1}>>,
              <<"nested", IF IsMulti(k) THEN BOOLEAN ELSE {FALSE}>>,
              <<"skip", IF IsSobol(k) THEN {-1, 0, 1, 2, 4, 7, 8, 16, 31, 40, 128, 1000} ELSE {-1}>> >>
Sizes == {0, 1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 20, 32, 64, 150, 257}
Small == {0, 1, 2, 3, 4, 6, 8, 12, 35}
(* how the counts of the fidelities follow each other, lowest fidelity last   *)
Request(o) == << <<"size", IF IsMulti(log[o].kind) THEN Small ELSE Sizes>>,
                 <<"step1", IF IsMulti(log[o].kind) THEN {0, 1, 2, 5, 8, 40, -1} ELSE {0}>>,
                 <<"step2", IF IsMulti(log[o].kind) THEN {0, 1, 3, 8, -2} ELSE {0}>>,
                 <<"equal", IF IsMulti(log[o].kind) THEN 1..4 ELSE {2}>>,      \* 1: the same count everywhere
                 <<"container", {"list", "tuple"}>>,
                 <<"seed", {1, 2, 3, 77, 123456}>> >>
Objects == {k \in 1..Len(log) : log[k].op = "make"}
Requests == {k \in 1..Len(log) : log[k].op = "request"}
Again == << <<"req", Requests>>, <<"how", Hows>> >>
Save == << <<"name", {"a", "b", "a.b", "sub/c", "b.pickle", "default"}>> >>

Begin(d, f) == draft' = d /\ todo' = f
Start == /\ todo = <<>> /\ n < MaxOps
         /\ \/ \E k \in Kinds : (IF Len(log) = 0 THEN TRUE ELSE log[Len(log)].op # "make") /\ Begin([op |-> "make", kind |-> k], Make(k))
            \/ \E o \in Objects : Begin([op |-> "request", obj |-> o], Request(o))
            \/ Requests # {} /\ Begin([op |-> "again"], Again)
            \/ Requests # {} /\ \E r \in Requests : Begin([op |-> "save", obj |-> log[r].obj], Save)
            \/ Requests # {} /\ \E r \in Requests : Begin([op |-> "scribble", obj |-> log[r].obj], << <<"k", 1..2>> >>)
            \/ Requests # {} /\ Begin([op |-> "noise"], << <<"k", 1..3>> >>)
         /\ UNCHANGED <<log, n, fin>>
Choose == /\ todo # <<>>
          /\ \E v \in todo[1][2] : LET d == (todo[1][1] :> v) @@ draft IN
               /\ draft' = d
               /\ todo' = Tail(todo)
               /\ IF Len(todo) > 1 THEN UNCHANGED <<log, n>> ELSE log' = Append(log, d) /\ n' = n + 1
          /\ UNCHANGED fin
Finish == n = MaxOps /\ todo = <<>> /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<log, n, todo, draft>>
Init == log = <<>> /\ n = 0 /\ todo = <<>> /\ draft = <<>> /\ fin = FALSE
Next == Start \/ Choose \/ Finish
Spec == Init /\ [][Next]_vars
Emit == fin => PrintT("SCENARIO " \o ToJson(log))
====
