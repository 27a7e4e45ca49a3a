---- MODULE AcquisitionGen ----
(* Sessions with acquisition functions.  Mode "sf" and "mf": evaluations, drawn *)
(* by TLC's simulator; "query": searches, drawn; "tour": every acquisition with *)
(* every optimizer and kind of surrogate, all of them.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Mode
VARIABLES log, n, todo, draft, fin
vars == <<log, n, todo, draft, fin>>

Single == {"LCB", "EI", "PI", "CEI"}
Double == {"AEI", "VFEI", "VFLCB", "EPI"}
Names == CASE Mode = "sf" -> Single [] Mode = "mf" -> Double [] OTHER -> Single \cup Double
Kinds == CASE Mode = "sf" -> {"gp"} [] Mode = "mf" -> {"hk", "sk", "ck"} [] OTHER -> {"gp", "hk", "sk", "ck"}
Data == {"smooth", "rough", "offset", "tiny", "big", "nested", "same", "constant", "linear"}
Points == {"train", "random", "corner", "outside", "twice", "near", "centre"}
Layouts == {"plain", "fortran", "strided", "readonly", "vector", "ints"}
Ops(o) == {k \in 1..Len(log) : log[k].op = o}
Surs == Ops("sur")
GPs == {k \in Surs : log[k].kind = "gp"}
Fit(a) == IF log[a].name \in Single THEN GPs
          ELSE IF log[a].name = "VFEI" /\ \E k \in Surs : log[k].kind = "hk" THEN {k \in Surs : log[k].kind = "hk"}
          ELSE Surs \ GPs

Sur(k) == << <<"prior", {"none", "0", "0", "0.01"}>>, <<"how", {"fit", "script"}>>, <<"data", Data>>, <<"nh", {3, 4, 5}>>, <<"nl", {4, 6}>>,
             <<"seed", 1..40>>, <<"hyp", 1..5>> >>
Refit(k) == << <<"data", Data>>, <<"nh", {3, 4, 5}>>, <<"nl", {4, 6}>>, <<"seed", 1..40>>, <<"hyp", 1..5>> >>
Acq(a) == << <<"kappa", {0, 1, 2, 3}>>, <<"opt", IF Mode = "query" THEN {"stub", "stub", "pso", "de"} ELSE {"none"}>> >>
Cons(a) == IF log[a].name = "CEI" THEN {<<x>> : x \in GPs} \cup {<<x, y>> : x \in GPs, y \in GPs} \cup {<<x, y, z>> : x \in GPs, y \in GPs, z \in GPs} ELSE {<<>>}
Args == << <<"fid", {0, 1}>>, <<"cr", {"1", "2", "5", "0.5", "20"}>>, <<"fmin", {"best", "below", "zero", "above", "mean"}>>, <<"seed", 1..60>> >>
Eval(a) == << <<"sur", Fit(a)>>, <<"cons", Cons(a)>>, <<"kind", Points>>, <<"size", {1, 2, 4, 9}>>, <<"layout", Layouts>> >> \o Args
Query(a) == << <<"sur", Fit(a)>>, <<"cons", Cons(a)>> >> \o Args
Again == << <<"of", Ops("eval")>>, <<"how", {"same", "one", "reverse", "twice", "inplace", "fidelity", "ratio", "firstsame"}>> >>

Begin(d, f) == draft' = d /\ todo' = f
Usable(a) == Fit(a) # {}
Choices ==
    IF log = <<>> THEN Begin([op |-> "space"], << <<"dim", {1, 1, 2, 3}>>, <<"space", {"unit", "shifted", "wide", "small", "mixed"}>> >>)
    ELSE IF Surs = {} THEN \E k \in Kinds : Begin([op |-> "sur", kind |-> k], Sur(k))
    ELSE IF Ops("acq") = {} THEN \E a \in Names : Begin([op |-> "acq", name |-> a], Acq(a))
    ELSE \/ Cardinality(Surs) < 4 /\ \E k \in Kinds : Begin([op |-> "sur", kind |-> k], Sur(k))
         \/ Cardinality(Ops("acq")) < 3 /\ \E a \in Names : Begin([op |-> "acq", name |-> a], Acq(a))
         \/ Mode # "query" /\ \E a \in Ops("acq"), w \in {1, 2} : Usable(a) /\ Begin([op |-> "eval", acq |-> a], Eval(a))
         \/ Mode = "query" /\ \E a \in Ops("acq"), w \in {1, 2, 3} : Usable(a) /\ Begin([op |-> "query", acq |-> a], Query(a))
         \/ Ops("eval") # {} /\ \E w \in {1, 2} : Begin([op |-> "again"], Again)
         \/ \E s \in Surs : Begin([op |-> "refit", sur |-> s], Refit(s))
Start == todo = <<>> /\ n < MaxOps /\ Choices /\ UNCHANGED <<log, n, fin>>
Choose == /\ todo # <<>>
          /\ \E v \in todo[1][2] : LET d == (todo[1][1] :> v) @@ draft IN
               /\ draft' = d
               /\ todo' = Tail(todo)
               /\ IF Len(todo) > 1 THEN UNCHANGED <<log, n>> ELSE log' = Append(log, d) /\ n' = n + 1
          /\ UNCHANGED fin
Finish == n = MaxOps /\ todo = <<>> /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<log, n, todo, draft>>

---------------------------------------------------------------------------
(* tours: every acquisition, kind of surrogate and optimizer: search, train    *)
(* the same surrogate on other data, search again, evaluate                    *)
Pick(s, k) == s[(k % Len(s)) + 1]
DataSeq == <<"smooth", "rough", "offset", "nested", "smooth", "tiny", "big", "linear", "constant", "same">>
SpaceSeq == <<"unit", "shifted", "wide", "mixed", "small">>
CrSeq == <<"5", "1", "2", "0.5">>
SurEv(kind, how, k) == [op |-> "sur", kind |-> kind, prior |-> Pick(<<"0", "none", "0.01">>, k), how |-> how, data |-> Pick(DataSeq, k),
                        nh |-> 3 + (k % 3), nl |-> 6, seed |-> k, hyp |-> 1 + (k % 5)]
Qu(a, c, k) == [op |-> "query", acq |-> 5, sur |-> 2, cons |-> c, fid |-> 0, cr |-> Pick(CrSeq, k), fmin |-> Pick(<<"best", "below", "mean">>, k), seed |-> k]
Ev(f, c, k) == [op |-> "eval", acq |-> 5, sur |-> 2, cons |-> c, kind |-> Pick(<<"random", "near", "train", "outside">>, k), size |-> 4, layout |-> "plain",
                fid |-> f, cr |-> Pick(CrSeq, k), fmin |-> Pick(<<"best", "below", "mean">>, k), seed |-> k]
Tour(a, kind, how, opt, k) ==
    LET c == IF a = "CEI" THEN Pick(<< <<3>>, <<3, 4>>, <<4, 3, 2>> >>, k) ELSE <<>> IN
    << [op |-> "space", dim |-> 1 + (k % 2), space |-> Pick(SpaceSeq, k)], SurEv(kind, how, k),
       SurEv(IF a = "CEI" THEN "gp" ELSE "hk", how, k + 3), SurEv(IF a = "CEI" THEN "gp" ELSE "hk", "fit", k + 7),
       [op |-> "acq", name |-> a, kappa |-> k % 4, opt |-> opt], Qu(a, c, k),
       [op |-> "refit", sur |-> 2, data |-> Pick(DataSeq, k + 1), nh |-> 4 + (k % 2), nl |-> 6, seed |-> k + 1, hyp |-> 1 + ((k + 1) % 5)],
       Qu(a, c, k + 1), Ev(0, c, k), Ev(1, c, k + 1), [op |-> "again", of |-> 9, how |-> "one"] >>
KindsOf(a) == IF a \in Single THEN {"gp"} ELSE IF a = "VFEI" THEN {"hk"} ELSE {"hk", "sk", "ck"}
Code(a, kind, how, opt) ==
    (CASE a = "LCB" -> 0 [] a = "EI" -> 2 [] a = "PI" -> 5 [] a = "CEI" -> 7 [] a = "AEI" -> 1 [] a = "VFEI" -> 3 [] a = "VFLCB" -> 4 [] OTHER -> 6)
    + (CASE kind = "gp" -> 0 [] kind = "hk" -> 1 [] kind = "sk" -> 4 [] OTHER -> 6) + (IF how = "fit" THEN 0 ELSE 3)
    + (CASE opt = "none" -> 0 [] opt = "stub" -> 1 [] opt = "pso" -> 3 [] OTHER -> 5)
Tours == UNION { { Tour(a, k, h, o, Code(a, k, h, o) + 7 * w) : k \in KindsOf(a), h \in {"fit", "script"}, o \in {"none", "stub", "pso", "de"}, w \in 0..(MaxOps - 1) }
                 : a \in Single \cup Double }

Init == IF Mode = "tour" THEN log \in Tours /\ n = 0 /\ todo = <<>> /\ draft = <<>> /\ fin = TRUE
        ELSE log = <<>> /\ n = 0 /\ todo = <<>> /\ draft = <<>> /\ fin = FALSE
Next == Mode # "tour" /\ (Start \/ Choose \/ Finish)
Spec == Init /\ [][Next]_vars
Emit == fin => PrintT("SCENARIO " \o ToJson(log))
====
